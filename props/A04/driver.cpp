// reductions over a range of entries, of scalars or of packs
#include "vp_pack.hpp"
#include <ekat_reduction_utils.hpp>
#include <ekat_math_utils.hpp>
using namespace ekat;
using Exe=Kokkos::DefaultExecutionSpace;
static Kokkos::TeamMember tm() { return Kokkos::TeamMember{0,1,0,1}; }
static const long MX=1l<<30;
struct Rg { int n,b,e; };
static Rg rg(int N) { Rg r; r.n=vp_size("n",0,MX/N,20)*N; r.b=vp_int("b",0,MX); r.e=vp_int("e",0,MX); vp_assume(r.b<=r.e); vp_assume(r.e<=r.n); return r; }
template<class T> T ref_sum(const T* a, int b, int e) { T r=0; for (int k=b;k<e;++k) r+=a[k]; return r; }
template<class T> struct Sc { const T* a; T operator()(int k) const { return a[k]; } };
template<class T,int N> struct Pk { const Pack<T,N>* a; const Pack<T,N>& operator()(int k) const { return a[k]; } };
// one after the other, starting from zero
template<class T> void ser() { Rg r=rg(1); T* a=vp_array<T>("a",r.n); const T ref=ref_sum(a,r.b,r.e); auto t=tm();
  vp_check(vp_same(impl::view_reduction<true>(t,r.b,r.e,Sc<T>{a}),ref),"serialized sum of scalars: the entries in order"); }
template<class T> void serv() { Rg r=rg(1); T* a=vp_array<T>("a",r.n); const T ref=ref_sum(a,r.b,r.e); auto t=tm(); Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged> v(a,r.n);
  vp_check(vp_same(ReductionUtils<Exe,true>::view_reduction(t,r.b,r.e,v),ref),"serialized sum of a view: the entries in order"); }
template<class T> void serpr() { Rg r=rg(1); T* a=vp_array<T>("a",r.n); T ref=0; for (int k=r.b;k<r.e;++k) ref=ref*a[k]-a[k]; auto t=tm(); auto f=[&](int k, T& x) { x=x*a[k]-a[k]; };
  vp_check(vp_same(ReductionUtils<Exe,true>::template parallel_reduce<T>(t,r.b,r.e,f),ref),"serialized reduction: the steps in order"); }
template<class T,int N> void serp() { Rg r=rg(N); T* a=vp_array<T>("a",r.n); const T ref=ref_sum(a,r.b,r.e); auto t=tm();
  vp_check(vp_same(impl::view_reduction<true>(t,r.b,r.e,Pk<T,N>{(const Pack<T,N>*)a}),ref),"serialized sum of packs: the entries in order"); }
template<class T,int N> void serpv() { Rg r=rg(N); T* a=vp_array<T>("a",r.n); const T ref=ref_sum(a,r.b,r.e); auto t=tm(); Kokkos::View<const Pack<T,N>*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged> v((const Pack<T,N>*)a,r.n/N);
  vp_check(vp_same(ReductionUtils<Exe,true>::view_reduction(t,r.b,r.e,v),ref),"serialized sum of a view of packs: the entries in order"); }
#define SER(F) VP_HARNESS(s_##F##_d) { F<double>(); } VP_HARNESS(s_##F##_f) { F<float>(); }
#define SERP(F) VP_HARNESS(s_##F##_d1) { F<double,1>(); } VP_HARNESS(s_##F##_d4) { F<double,4>(); } VP_HARNESS(s_##F##_f2) { F<float,2>(); } VP_HARNESS(s_##F##_f16) { F<float,16>(); }
SER(ser) SER(serv) SER(serpr) SERP(serp) SERP(serpv)
// in any order: S is the running sum of the entries
template<class T> T* running(T* a, const Rg& r, int N) { T* S=vp_array<T>("S",(long)r.n+1);
#ifdef VP_NATIVE
  for (int k=0;k<r.n;++k) a[k]=(T)((int)std::fmod(std::isfinite(a[k])?a[k]:3,64)+(k%5)); 
  S[0]=0; for (int k=0;k<r.n;++k) S[k+1]=S[k]+a[k];
#else
  for (int j=0;j<N;++j) { long k=r.b/N*N+j; if (k<r.n) vp_assume(S[k+1]==S[k]+a[k]); k=r.e/N*N+j; if (k<r.n) vp_assume(S[k+1]==S[k]+a[k]); }
#endif
  return S; }
template<class T> void par() { Rg r=rg(1); T* a=vp_array<T>("a",r.n); T* S=running(a,r,1); auto t=tm();
  vp_check(impl::view_reduction<false>(t,r.b,r.e,Sc<T>{a})==S[r.e]-S[r.b],"sum of scalars: every entry of the range once"); }
template<class T> void parv() { Rg r=rg(1); T* a=vp_array<T>("a",r.n); T* S=running(a,r,1); auto t=tm(); Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged> v(a,r.n);
  vp_check(ReductionUtils<Exe,false>::view_reduction(t,r.b,r.e,v)==S[r.e]-S[r.b],"sum of a view: every entry of the range once"); }
template<class T> void parpr() { Rg r=rg(1); T* a=vp_array<T>("a",r.n); T* S=running(a,r,1); auto t=tm(); auto f=[&](int k, T& x) { x+=a[k]; };
  vp_check(ReductionUtils<Exe,false>::template parallel_reduce<T>(t,r.b,r.e,f)==S[r.e]-S[r.b],"reduction: every step of the range once"); }
template<class T,int N> void parp() { Rg r=rg(N); T* a=vp_array<T>("a",r.n); T* S=running(a,r,N); auto t=tm();
  vp_check(impl::view_reduction<false>(t,r.b,r.e,Pk<T,N>{(const Pack<T,N>*)a})==S[r.e]-S[r.b],"sum of packs: every entry of the range once"); }
template<class T,int N> void parpv() { Rg r=rg(N); T* a=vp_array<T>("a",r.n); T* S=running(a,r,N); auto t=tm(); Kokkos::View<const Pack<T,N>*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged> v((const Pack<T,N>*)a,r.n/N);
  vp_check(ReductionUtils<Exe,false>::view_reduction(t,r.b,r.e,v)==S[r.e]-S[r.b],"sum of a view of packs: every entry of the range once"); }
#define PAR(F) VP_HARNESS(p_##F##_d) { F<double>(); } VP_HARNESS(p_##F##_f) { F<float>(); }
#define PARP(F) VP_HARNESS(p_##F##_d1) { F<double,1>(); } VP_HARNESS(p_##F##_d4) { F<double,4>(); } VP_HARNESS(p_##F##_f2) { F<float,2>(); } VP_HARNESS(p_##F##_f8) { F<float,8>(); }
PAR(par) PAR(parv) PAR(parpr) PARP(parp) PARP(parpv)
// the default is the order of the build option
template<int N> void dflt() { Rg r=rg(N); double* a=vp_array<double>("a",r.n); const double ref=ref_sum(a,r.b,r.e); auto t=tm();
  vp_check(vp_same(ReductionUtils<Exe>::view_reduction(t,r.b,r.e,Pk<double,N>{(const Pack<double,N>*)a}),ref),"bit for bit reproducible builds sum in order"); }
VP_HARNESS(s_dflt4) { dflt<4>(); }
