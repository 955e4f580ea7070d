// ViewBroadcast: B(i0,..) is the entry of the original view at the non-broadcast indices
#include "vp.hpp"
#include <stdexcept>
#include <vector>
#include <utility>
#include <ekat_kernel_assert.hpp>
#include <ekat_view_broadcast.hpp>
using namespace ekat;
constexpr long MX=1<<7;
template<class T,int R> struct ND { using type=typename ND<T,R-1>::type*; }; template<class T> struct ND<T,0> { using type=T; };
template<class T,int R> using View=Kokkos::View<typename ND<T,R>::type,Kokkos::LayoutRight,Kokkos::HostSpace>;
template<class T,int R> using UView=Kokkos::View<typename ND<T,R>::type,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template<class V,size_t... I> auto* at_(const V& v, const long* i, std::index_sequence<I...>) { return &v((int)i[I]...); }
template<int R,class V> auto* at(const V& v, const long* i) { return at_(v,i,std::make_index_sequence<R>()); }
template<class T,int R,size_t... I> UView<T,R> mk_(T* p, const long* n, std::index_sequence<I...>) { return UView<T,R>(p,n[I]...); }
static const char* const N_="n0\0n1\0n2\0n3\0n4\0n5\0n6\0n7\0"; static const char* const I_="i0\0i1\0i2\0i3\0i4\0i5\0i6\0i7\0"; static const char* const E_="e0\0e1\0e2\0e3\0e4\0e5\0e6\0e7\0";
inline int bits(int m) { int c=0; for (int k=0;k<8;++k) c+=m>>k&1; return c; }
template<class T,int F,int R> void bc(bool use_fn) {
  long n[F], s=1; for (int k=0;k<F;++k) { n[k]=vp_size(N_+3*k,1,F<=3?MX:16,3); s*=n[k]; }
  T* d=vp_array<T>("data",s);
  auto v=mk_<T,F>(d,n,std::make_index_sequence<F>());
  // any position of the kept dimensions
  for (int mask=0;mask<(1<<R);++mask) { if (bits(mask)!=F) continue;
    std::vector<int> e(R); long idx[R], from[F+1], ext[R]; int f=0; bool in=true;
    for (int k=0;k<R;++k) {
      idx[k]=vp_size(I_+3*k,0,100000,4);
      if (mask>>k&1) { e[k]=(int)vp_inti("neg",k,-2147483647,0); ext[k]=n[f]; from[f]=idx[k]; ++f; }
      else { e[k]=(int)vp_inti("pos",k,1,2147483647); ext[k]=e[k]; }
      in = vp_and(in,idx[k]<ext[k]); }
    ViewBroadcast<View<T,R>> b; if (use_fn) b=broadcast<View<T,R>>(v,e); else b.setup(v,e);
    for (int k=0;k<R;++k) vp_check(b.extent(k)==ext[k],"extent: given or taken from the original view");
    if (in) vp_check(at<R>(b,idx)==at<F>(v,from),"entry: the original entry at the non-broadcast indices");
  }
}
#define B(F,R,U) VP_HARNESS(bc_##F##_##R) { bc<double,F,R>(U); }
B(1,1,false) B(1,2,true) B(2,2,true) B(1,3,false) B(2,3,true) B(3,3,true) B(1,4,true) B(2,4,false) B(3,4,true) B(4,4,true) B(1,5,false) B(2,5,true) B(3,5,true) B(4,5,true) B(5,5,false)
B(1,6,false) B(2,6,true) B(3,6,true) B(5,6,true) B(6,6,true) B(1,7,true) B(2,7,true) B(6,7,false) B(7,7,true) B(1,8,true) B(2,8,true) B(7,8,true) B(8,8,false)
// wrong requests are refused
template<class T,int F,int R> void bad() {
  long n[F], s=1; for (int k=0;k<F;++k) { n[k]=vp_size(N_+3*k,1,16,3); s*=n[k]; }
  auto v=mk_<T,F>(vp_array<T>("data",s),n,std::make_index_sequence<F>());
  for (int mask=0;mask<(1<<R);++mask) {
    std::vector<int> e(R); int f=0; for (int k=0;k<R;++k) { if (mask>>k&1) { e[k]=(int)vp_inti("neg",k,-2147483647,0); ++f; } else e[k]=(int)vp_inti("pos",k,1,2147483647); }
    bool thrown=false;
    try { ViewBroadcast<View<T,R>> b; b.setup(v,e); } catch (std::exception&) { thrown=true; }
    vp_check(thrown==(f!=F || F>R),"refused exactly when the number of open dimensions is not the rank of the original view");
  }
}
#define BAD(F,R) VP_HARNESS(bad_##F##_##R) { bad<double,F,R>(); }
BAD(1,2) BAD(2,3) BAD(1,4) BAD(3,2) BAD(2,1) BAD(3,6)
template<int R> void badsize() {
  long n=vp_size("n",1,16,3); auto v=mk_<double,1>(vp_array<double>("data",n),&n,std::make_index_sequence<1>());
  for (int len=0;len<=9;++len) {
    std::vector<int> e; for (long k=0;k<len;++k) e.push_back(k?(int)vp_inti("e",k,1,1000):0);
    bool thrown=false;
    try { ViewBroadcast<View<double,R>> b(v,e); } catch (std::exception&) { thrown=true; }
    vp_check(thrown==(len!=R),"refused when the list of extents does not have one entry per dimension");
  }
}
VP_HARNESS(badsize_2) { badsize<2>(); } VP_HARNESS(badsize_4) { badsize<4>(); }
