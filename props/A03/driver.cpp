// linear interpolation of columns
#include <cstdlib>
#include <algorithm>
#include "vp_pack.hpp"
#include <ekat_lin_interp.hpp>
using namespace ekat;
static const int MX=1<<20;
template<class T,int N> using PV=Kokkos::View<Pack<T,N>*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
template<class T,int N> using PVc=Kokkos::View<const Pack<T,N>*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
template<class T> using SV=Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
template<class T,int N> struct Col {
  int ncol,c,d,km1,km2,n1,n2,k2,j; T *x1,*y1,*x2,*y2;
  Col() {
    ncol=vp_size("ncol",1,1024,4); c=vp_int("c",0,1023); d=vp_int("d",0,1023); vp_assume(c<ncol); vp_assume(d<ncol);
    km1=vp_size("km1",2,MX,9); km2=vp_size("km2",1,MX,9); n1=npack<N>(km1); n2=npack<N>(km2); vp_assume(n1*N>=km1 && n1*N<km1+N && n2*N>=km2 && n2*N<km2+N); 
    x1=vp_array<T>("x1",n1*N); y1=vp_array<T>("y1",n1*N); x2=vp_array<T>("x2",n2*N); y2=vp_array<T>("y2",n2*N);
    k2=vp_int("k2",0,MX); vp_assume(k2<n2); j=vp_int("j",0,MX); vp_assume(j<=km1-2);
#ifdef VP_NATIVE
    auto nm=[](T v) { return std::isfinite(v)?(T)(int)std::fmod(v*4,16):(T)3; };
    T s=nm(x1[0]); for (int k=0;k<n1*N;++k) { x1[k]=s; s+=1+std::abs(nm(y1[k]))/8; if (k>=km1) x1[k]=-1000; } 
    for (int k=0;k<n1*N;++k) y1[k]=nm(y1[k]); for (int k=0;k<n2*N;++k) { T v=nm(x2[k]); x2[k]= k%3==0 ? x1[std::abs((int)v)%km1] : x1[0]+v; }
    vp_unfocus();
#endif
  }
  template<int M> static int npack(int n) { return (n+M-1)/M; }
  void line(int s) const {
#ifdef VP_NATIVE
    for (int jj=0;jj<=km1-2;++jj) { const T v=x2[k2*N+s]; if ((jj==0||x1[jj]<=v)&&(jj==km1-2||v<x1[jj+1]) && k2*N+s<km2) { const T e=y1[jj]+(y1[jj+1]-y1[jj])*((v-x1[jj])/(x1[jj+1]-x1[jj])); vp_check(std::abs(y2[k2*N+s]-e)<=1e-4*(1+std::abs(e)),"the result lies on the line through the end points of the segment of the coordinate"); } }
#else
    const T w=x1[j+1]-x1[j];
    const T v=x2[k2*N+s], d=(y2[k2*N+s]-y1[j])*w, e=(y1[j+1]-y1[j])*(v-x1[j]); if (k2*N+s<km2) {
    if (vp_and(x1[j]<=v,v<x1[j+1])) vp_check(d==e,"the result lies on the line through the end points of the segment of the coordinate");
    if (vp_and(j==0,v<x1[0])) vp_check(d==e,"before the first coordinate the result lies on the line of the first segment");
    if (vp_and(j==km1-2,v>=x1[km1-1])) vp_check(d==e,"from the last coordinate on the result lies on the line of the last segment"); }
#endif
  }
};
template<class T,int N> using LI=LinInterp<T,N>;
template<class T,int N> typename LI<T,N>::MemberType tm(int r, int n) { return Kokkos::TeamMember{r,n,0,1}; }
template<class T,int N> void own() { // the column of the team
  Col<T,N> c; LI<T,N> li(c.ncol,c.km1,c.km2); auto t=tm<T,N>(c.c,c.ncol); PV<T,N> x1((Pack<T,N>*)c.x1,c.n1), y1((Pack<T,N>*)c.y1,c.n1), x2((Pack<T,N>*)c.x2,c.n2), y2((Pack<T,N>*)c.y2,c.n2);
  vp_check(li.km1_pack()==c.n1 && li.km2_pack()==c.n2,"numbers of packs");
  vp_focus(c.k2); li.setup(t,x1,x2); vp_focus(c.k2); li.lin_interp(t,x1,x2,y1,y2); vp_unfocus();
  for (int s=0;s<N;++s) c.line(s); }
template<class T,int N> void given() { // a given column, another one set up in between, range of the caller, const views
  Col<T,N> c; vp_assume(c.c!=c.d); LI<T,N> li(c.ncol,c.km1,c.km2); auto t=tm<T,N>(c.d,c.ncol); PVc<T,N> x1((Pack<T,N>*)c.x1,c.n1), y1((Pack<T,N>*)c.y1,c.n1), x2((Pack<T,N>*)c.x2,c.n2); PV<T,N> y2((Pack<T,N>*)c.y2,c.n2);
  T* z=vp_array<T>("z",c.n2*N); PV<T,N> x3((Pack<T,N>*)z,c.n2);
  vp_focus(c.k2); li.setup(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),x1,x2,c.c); vp_unfocus(); vp_watch_last();
  const long a=(long)c.c*c.n2, b=(long)c.d*c.n2; const bool apart=vp_or(a+c.n2<=b,b+c.n2<=a); vp_check(apart,"columns do not overlap"); vp_assume(apart);
  li.setup(t,x1,x3,c.d); vp_watched_kept("setting up another column keeps the map of this one"); vp_unfocus();
  vp_focus(c.k2); li.lin_interp(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),x1,x2,y1,y2,c.c); vp_unfocus();
  for (int s=0;s<N;++s) c.line(s); }
template<class T,int N> void scal() { // views of scalars
  Col<T,N> c; LI<T,N> li(c.ncol,c.km1,c.km2); auto t=tm<T,N>(c.c,c.ncol); SV<T> x1(c.x1,c.n1*N), y1(c.y1,c.n1*N), x2(c.x2,c.n2*N), y2(c.y2,c.n2*N);
  vp_focus(c.k2); li.setup(t,x1,x2); vp_focus(c.k2); li.lin_interp(t,x1,x2,y1,y2); vp_unfocus();
  for (int s=0;s<N;++s) c.line(s); }
template<class T,int N> void node() { // at a coordinate the value given there
  Col<T,N> c; LI<T,N> li(c.ncol,c.km1,c.km2); auto t=tm<T,N>(c.c,c.ncol); PV<T,N> x1((Pack<T,N>*)c.x1,c.n1), y1((Pack<T,N>*)c.y1,c.n1), x2((Pack<T,N>*)c.x2,c.n2), y2((Pack<T,N>*)c.y2,c.n2);
  const int e=vp_int("e",0,1); const int q=c.j+e; 
  vp_focus(c.k2); li.setup(t,x1,x2); vp_focus(c.k2); li.lin_interp(t,x1,x2,y1,y2); vp_unfocus();
  for (int s=0;s<N;++s) vp_check(vp_implies(vp_and(c.k2*N+s<c.km2,c.x2[c.k2*N+s]==c.x1[q]),c.y2[c.k2*N+s]==c.y1[q]),"at a coordinate of the given column the result is the value given there"); }
VP_HARNESS(own_d1) { own<double,1>(); } VP_HARNESS(own_d4) { own<double,4>(); } VP_HARNESS(own_f2) { own<float,2>(); } VP_HARNESS(own_f8) { own<float,8>(); }
VP_HARNESS(given_d1) { given<double,1>(); } VP_HARNESS(given_d4) { given<double,4>(); } VP_HARNESS(given_f2) { given<float,2>(); }
VP_HARNESS(scal_d1) { scal<double,1>(); } VP_HARNESS(scal_d4) { scal<double,4>(); } VP_HARNESS(scal_f2) { scal<float,2>(); }
VP_HARNESS(node_d1) { node<double,1>(); } VP_HARNESS(node_d4) { node<double,4>(); } VP_HARNESS(node_f2) { node<float,2>(); }
