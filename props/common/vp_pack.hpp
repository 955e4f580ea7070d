#ifndef VP_PACK_HPP
#define VP_PACK_HPP
#include "vp.hpp"
#include <ekat_pack.hpp>
// lanes held outside of Pack, so that the specification does not rest on Pack itself
template<class T,int N> struct Lanes { T v[N]; T operator[](int i) const { return v[i]; } };
template<class T,int N> inline Lanes<T,N> lanes(const char* nm) { Lanes<T,N> l; for (int i=0;i<N;++i) l.v[i]=vp_in<T>(nm,i); return l; }
template<int N> inline Lanes<bool,N> bits(const char* nm) { return lanes<bool,N>(nm); }
template<class T,int N> inline ekat::Pack<T,N> mk(const Lanes<T,N>& l) { ekat::Pack<T,N> p; for (int i=0;i<N;++i) p[i]=l.v[i]; return p; }
template<int N> inline ekat::Mask<N> mk(const Lanes<bool,N>& l) { ekat::Mask<N> p; for (int i=0;i<N;++i) p.set(i,l.v[i]); return p; }
// only for divisors: integer division by zero is outside the contract
template<class T,int N> inline void nonzero(const Lanes<T,N>& l) { if (!std::is_floating_point<T>::value) for (int i=0;i<N;++i) vp_assume(l.v[i]!=T(0)); }
inline void nonzero(int s) { vp_assume(s!=0); } inline void nonzero(long s) { vp_assume(s!=0); } inline void nonzero(double) {} inline void nonzero(float) {}
#define VP_INST(F) \
  VP_HARNESS(F##_d1) { F<double,1>(); }   VP_HARNESS(F##_d4) { F<double,4>(); } VP_HARNESS(F##_d16) { F<double,16>(); } \
  VP_HARNESS(F##_f2) { F<float,2>(); }    VP_HARNESS(F##_f8) { F<float,8>(); } \
  VP_HARNESS(F##_i1) { F<int,1>(); }      VP_HARNESS(F##_i4) { F<int,4>(); }    VP_HARNESS(F##_i16) { F<int,16>(); }
#define VP_INST_F(F) \
  VP_HARNESS(F##_d1) { F<double,1>(); }   VP_HARNESS(F##_d4) { F<double,4>(); } VP_HARNESS(F##_d16) { F<double,16>(); } \
  VP_HARNESS(F##_f2) { F<float,2>(); }    VP_HARNESS(F##_f8) { F<float,8>(); }
// mixed scalar types
#define VP_INST2(F) \
  VP_HARNESS(F##_dd4) { F<double,double,4>(); } VP_HARNESS(F##_df4) { F<double,float,4>(); } VP_HARNESS(F##_fd8) { F<float,double,8>(); } \
  VP_HARNESS(F##_di8) { F<double,int,8>(); } VP_HARNESS(F##_fi2) { F<float,int,2>(); } VP_HARNESS(F##_ii4) { F<int,int,4>(); } \
  VP_HARNESS(F##_il2) { F<int,long,2>(); } VP_HARNESS(F##_li2) { F<long,int,2>(); } VP_HARNESS(F##_dd1) { F<double,double,1>(); } VP_HARNESS(F##_dd16) { F<double,double,16>(); }
#endif
