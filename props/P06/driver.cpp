// Transfers between host arrays and packed views (1d, 2d, 3d; with and without transposition)
#ifdef VP_NATIVE
#include <Kokkos_Core.hpp>
#define VP_SETUP(argc,argv) Kokkos::initialize()
#define VP_TEARDOWN()
#endif
#include "vp.hpp"
#include <ekat_pack.hpp>
#include <ekat_pack_kokkos.hpp>
using namespace ekat;
using TD=TransposeDirection;
using HR=Kokkos::LayoutRight; using HS=Kokkos::HostSpace;
template<class P> using V1=Kokkos::View<P*,HR,HS>; template<class P> using V2=Kokkos::View<P**,HR,HS>; template<class P> using V3=Kokkos::View<P***,HR,HS>;
template<class T,int N> struct lane_t { static const T& get(const Pack<T,N>& p, long i) { return p[i]; } };
template<class T> const T& lane(const T& p, long) { return p; }
template<class T,int N> const T& lane(const Pack<T,N>& p, long i) { return p[i]; }
template<class P> struct sc { using T=P; static constexpr int N=1; };
template<class T_,int N_> struct sc<Pack<T_,N_>> { using T=T_; static constexpr int N=N_; };
// U: uniform sizes passed as scalars
template<class P,bool U> void up1() {
  using T=typename sc<P>::T; constexpr int N=sc<P>::N; const long MX=1<<20;
  long n0=vp_size("n0",0,MX,20), n1=U?n0:vp_size("n1",0,MX,20), j=vp_int("j",0,MX);
  T* a=vp_array<T>("a",n0); T* b=vp_array<T>("b",n1);
  std::vector<const T*> data{a,b}; std::vector<int> sz{(int)n0,(int)n1}; std::vector<V1<P>> v(2);
  vp_focus2(j/N,j%N);
  if constexpr (U) host_to_device(data,(size_t)n0,v); else host_to_device(data,sz,v);
  vp_check((long)v[0].extent(0)==(n0+N-1)/N && (long)v[1].extent(0)==(n1+N-1)/N,"1d: as many packs as the array needs");
  if (j<n0) vp_check(vp_same(lane(v[0](j/N),j%N),a[j]),"1d: scalar j is lane j%N of pack j/N, first array");
  if (j<n1) vp_check(vp_same(lane(v[1](j/N),j%N),b[j]),"1d: scalar j is lane j%N of pack j/N, second array");
  T* c=vp_array<T>("c",n0); T* d=vp_array<T>("d",n1); std::vector<T*> out{c,d};
  if constexpr (U) device_to_host(out,(size_t)n0,v); else device_to_host(out,sz,v);
  if (j<n0) vp_check(vp_same(c[j],a[j]),"1d: round trip, first array");
  if (j<n1) vp_check(vp_same(d[j],b[j]),"1d: round trip, second array");
}
VP_HARNESS(r1_d4) { up1<Pack<double,4>,false>(); } VP_HARNESS(r1_f8) { up1<Pack<float,8>,true>(); } VP_HARNESS(r1_i) { up1<int,false>(); } VP_HARNESS(r1_du) { up1<double,true>(); }
template<class P,bool U,bool TR> void up2() {
  using T=typename sc<P>::T; constexpr int N=sc<P>::N; const long MX=4096;
  long m0=vp_size("m0",0,MX,6), n0=vp_size("n0",0,MX,6), i=vp_int("i",0,MX), j=vp_int("j",0,MX), m1=U?m0:vp_size("m1",0,MX,6), n1=U?n0:vp_size("n1",0,MX,6);
  T* a=vp_array<T>("a",m0*n0); T* b=vp_array<T>("b",m1*n1);
  std::vector<const T*> data{a,b}; std::vector<int> s1{(int)m0,(int)m1}, s2{(int)n0,(int)n1}; std::vector<V2<P>> v(2);
  vp_focus2(i,j/N); vp_focus2(i,j);
  if constexpr (U) host_to_device(data,(size_t)m0,(size_t)n0,v,TR); else host_to_device(data,s1,s2,v,TR);
  vp_check((long)v[0].extent(0)==m0 && (long)v[0].extent(1)==(n0+N-1)/N,"2d: extents, first array"); vp_check((long)v[1].extent(0)==m1 && (long)v[1].extent(1)==(n1+N-1)/N,"2d: extents, second array");
  bool in0=i<m0&&j<n0, in1=i<m1&&j<n1;
  if (in0) vp_check(vp_same(lane(v[0](i,j/N),j%N),a[TR?j*m0+i:i*n0+j]),"2d: entry (i,j) is lane j%N of pack (i,j/N), first array");
  if (in1) vp_check(vp_same(lane(v[1](i,j/N),j%N),b[TR?j*m1+i:i*n1+j]),"2d: entry (i,j), second array");
  T* c=vp_array<T>("c",m0*n0); T* d=vp_array<T>("d",m1*n1); std::vector<T*> out{c,d};
  if constexpr (U) device_to_host(out,(size_t)m0,(size_t)n0,v,TR); else device_to_host(out,s1,s2,v,TR);
  long k0=TR?j*m0+i:i*n0+j, k1=TR?j*m1+i:i*n1+j;
  if (in0) vp_check(vp_same(c[k0],a[k0]),"2d: round trip, first array");
  if (in1) vp_check(vp_same(d[k1],b[k1]),"2d: round trip, second array");
}
VP_HARNESS(r2_d4) { up2<Pack<double,4>,false,false>(); } VP_HARNESS(r2_d4t) { up2<Pack<double,4>,false,true>(); } VP_HARNESS(r2_i1ut) { up2<int,true,true>(); } VP_HARNESS(r2_f2u) { up2<Pack<float,2>,true,false>(); }
template<class P,bool U,bool TR> void up3() {
  using T=typename sc<P>::T; constexpr int N=sc<P>::N; const long MX=512;
  long m=vp_size("m",0,MX,4), n=vp_size("n",0,MX,4), o=vp_size("o",0,MX,6), i=vp_int("i",0,MX), j=vp_int("j",0,MX), k=vp_int("k",0,MX); 
  T* a=vp_array<T>("a",m*n*o);
  std::vector<const T*> data{a}; std::vector<int> s1{(int)m}, s2{(int)n}, s3{(int)o}; std::vector<V3<P>> v(1);
  vp_focus3(i,j,k/N); vp_focus3(i,j,k);
  if constexpr (U) host_to_device(data,(size_t)m,(size_t)n,(size_t)o,v,TR); else host_to_device(data,s1,s2,s3,v,TR);
  vp_check((long)v[0].extent(0)==m && (long)v[0].extent(1)==n && (long)v[0].extent(2)==(o+N-1)/N,"3d: extents"); 
  bool in=i<m&&j<n&&k<o; long q=TR?(m*n)*k+j*m+i:i*(n*o)+j*o+k;
  if (in) vp_check(vp_same(lane(v[0](i,j,k/N),k%N),a[q]),"3d: entry (i,j,k) is lane k%N of pack (i,j,k/N)");
  T* c=vp_array<T>("c",m*n*o); std::vector<T*> out{c};
  if constexpr (U) device_to_host(out,(size_t)m,(size_t)n,(size_t)o,v,TR); else device_to_host(out,s1,s2,s3,v,TR);
  if (in) vp_check(vp_same(c[q],a[q]),"3d: round trip");
}
VP_HARNESS(r3_d2) { up3<Pack<double,2>,false,false>(); } VP_HARNESS(r3_d2t) { up3<Pack<double,2>,false,true>(); } VP_HARNESS(r3_f1ut) { up3<float,true,true>(); }
