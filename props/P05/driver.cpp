// Gathers with pack indices, and adjacent differences
#include "vp.hpp"
#include <ekat_pack.hpp>
#include <ekat_pack_kokkos.hpp>
using namespace ekat;
#define EACH(N) for (int i=0;i<N;++i)
constexpr long MX=1<<12;
using HR=Kokkos::LayoutRight; using HS=Kokkos::HostSpace;
#define SZ(nm) vp_size(nm,1,MX,5)
template<int N> Pack<int,N> ip(const char* nm, long n) { Pack<int,N> p; EACH(N) { long v=vp_inti(nm,i,0,MX); vp_assume(v<n); p[i]=(int)v; } return p; }

template<class T,int N> void gather() {
  long n[5]={SZ("n0"),SZ("n1"),SZ("n2"),SZ("n3"),SZ("n4")}; 
  Pack<int,N> a=ip<N>("a",n[0]), b=ip<N>("b",n[1]), c=ip<N>("c",n[2]), d=ip<N>("d",n[3]), e=ip<N>("e",n[4]);
  { Kokkos::View<T*,HR,HS> v(vp_array<T>("v1",n[0]),n[0]); auto r=index(v,a); EACH(N) vp_check(vp_same(r[i],v(a[i])),"index rank 1: lane i is element (a[i])"); 
    Kokkos::View<const T*,HR,HS> w(v); auto q=index(w,a); EACH(N) vp_check(vp_same(q[i],v(a[i])),"index of a const view"); }
  { Kokkos::View<T**,HR,HS> v(vp_array<T>("v2",n[0]*n[1]),n[0],n[1]); auto r=index(v,a,b); EACH(N) vp_check(vp_same(r[i],v(a[i],b[i])),"index rank 2"); }
  { Kokkos::View<T***,HR,HS> v(vp_array<T>("v3",n[0]*n[1]*n[2]),n[0],n[1],n[2]); auto r=index(v,a,b,c); EACH(N) vp_check(vp_same(r[i],v(a[i],b[i],c[i])),"index rank 3"); }
}
VP_HARNESS(gather_d4) { gather<double,4>(); } VP_HARNESS(gather_f8) { gather<float,8>(); } VP_HARNESS(gather_i1) { gather<int,1>(); } VP_HARNESS(gather_d16) { gather<double,16>(); }
template<class T,int N> void gather45() {
  const long M=1<<9; long n[5]={vp_size("n0",1,M,3),vp_size("n1",1,M,3),vp_size("n2",1,M,3),vp_size("n3",1,M,3),vp_size("n4",1,M,3)}; 
  Pack<int,N> a=ip<N>("a",n[0]), b=ip<N>("b",n[1]), c=ip<N>("c",n[2]), d=ip<N>("d",n[3]), e=ip<N>("e",n[4]);
  { Kokkos::View<T****,HR,HS> v(vp_array<T>("v4",n[0]*n[1]*n[2]*n[3]),n[0],n[1],n[2],n[3]); auto r=index(v,a,b,c,d); EACH(N) vp_check(vp_same(r[i],v(a[i],b[i],c[i],d[i])),"index rank 4"); }
  { Kokkos::View<T*****,HR,HS> v(vp_array<T>("v5",n[0]*n[1]*n[2]*n[3]*n[4]),n[0],n[1],n[2],n[3],n[4]); auto r=index(v,a,b,c,d,e); EACH(N) vp_check(vp_same(r[i],v(a[i],b[i],c[i],d[i],e[i])),"index rank 5"); }
}
VP_HARNESS(gather45_d2) { gather45<double,2>(); } VP_HARNESS(gather45_d4) { gather45<double,4>(); }

template<class T,int N,int S> void ishift() {
  long n=SZ("n0"); Pack<int,N> a=ip<N>("a",n); Kokkos::View<T*,HR,HS> v(vp_array<T>("v",n),n); Pack<T,N> x, y;
#ifdef NDEBUG
  EACH(N) vp_assume(a[i]+S>=0 && a[i]+S<n);
#endif
  index_and_shift<S>(v,a,x,y);
  EACH(N) { vp_check(vp_same(x[i],v(a[i])),"index_and_shift: first pack is index(v,a)");
    bool in=a[i]+S>=0 && a[i]+S<n; if (in) vp_check(vp_same(y[i],v(a[i]+S)),"index_and_shift: second pack is index(v,a+Shift)"); else vp_check(vp_same(y[i],invalid<T>()),"index_and_shift: out-of-range lanes are invalid"); }
}
VP_HARNESS(ishift_d4_1) { ishift<double,4,1>(); } VP_HARNESS(ishift_d4_m1) { ishift<double,4,-1>(); } VP_HARNESS(ishift_f8_2) { ishift<float,8,2>(); } VP_HARNESS(ishift_d16_m3) { ishift<double,16,-3>(); } VP_HARNESS(ishift_d1_1) { ishift<double,1,1>(); }

// adjacent differences; outside of the range the missing value is 0
template<class T,int N> void adj() {
  long np=SZ("n0"); long k=vp_size("k",0,MX,5); vp_assume(k<np); T* d=vp_array<T>("v",np*N); Kokkos::View<Pack<T,N>*,HR,HS> v((Pack<T,N>*)d,np);
  long end=vp_size("end",1,MX,5); vp_assume(end<=np && k<end);
  auto f=adj_diff<true>(v,(int)k,(int)end); auto b=adj_diff<false>(v,(int)k,(int)end); auto g=adj_diff<true>(v,(int)k); auto c=adj_diff<false>(v,(int)k);
  EACH(N) { long j=k*N+i;
    T up = j+1<end*N ? d[j+1] : T(0), upn = j+1<np*N ? d[j+1] : T(0), dn = j>0 ? d[j-1] : T(0);
    vp_check(CLOSE(f[i],T(up-d[j])),"forward difference across lanes and packs"); vp_check(CLOSE(b[i],T(d[j]-dn)),"backward difference across lanes and packs");
    vp_check(CLOSE(g[i],T(upn-d[j])),"forward difference, whole view"); vp_check(CLOSE(c[i],T(d[j]-dn)),"backward difference, whole view"); }
}
template<class T> void adjs() {
  long n=SZ("n0"); long k=vp_size("k",0,MX,5); vp_assume(k<n); T* d=vp_array<T>("v",n); Kokkos::View<T*,HR,HS> v(d,n); long end=vp_size("end",1,MX,5); vp_assume(end<=n && k<end);
  vp_check(CLOSE(adj_diff<true>(v,(int)k,(int)end),T((k+1<end?d[k+1]:T(0))-d[k])),"forward difference of scalars"); vp_check(CLOSE(adj_diff<false>(v,(int)k,(int)end),T(d[k]-(k>0?d[k-1]:T(0)))),"backward difference of scalars");
  vp_check(CLOSE(adj_diff<true>(v,(int)k),T((k+1<n?d[k+1]:T(0))-d[k])),"forward difference of scalars, whole view"); vp_check(CLOSE(adj_diff<false>(v,(int)k),T(d[k]-(k>0?d[k-1]:T(0)))),"backward difference of scalars, whole view");
  auto fn=[&](int i) { return v(i); }; vp_check(CLOSE(adj_diff<true>(fn,(int)k,(int)end),T((k+1<end?d[k+1]:T(0))-d[k])),"any callable may provide the values");
}
VP_HARNESS(adj_d1) { adj<double,1>(); } VP_HARNESS(adj_d4) { adj<double,4>(); } VP_HARNESS(adj_d8) { adj<double,8>(); } VP_HARNESS(adjs_d) { adjs<double>(); }
