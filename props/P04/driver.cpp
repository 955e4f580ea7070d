// Pack index arithmetic, scalarize, repack
#include "vp.hpp"
#include <ekat_pack.hpp>
#include <ekat_pack_utils.hpp>
#include <ekat_pack_kokkos.hpp>
using namespace ekat;

template<int N> void info() {
  using PI=PackInfo<N>; const int len=(int)vp_int("len",0,2147483647-N);
  const int np=PI::num_packs(len);
  vp_check(np>=0 && (long)np*N>=len,"num_packs packs hold the array"); vp_check(len==0 ? np==0 : (long)(np-1)*N<len,"one pack less does not hold the array");
  vp_check(npack<Pack<double,N>>(len)==np,"npack agrees with num_packs");
  if ((long)np*N<=2147483647) {
    const int pad=PI::padding(len);
    vp_check(pad>=0 && pad<N && (long)np*N-len==pad,"padding completes the last pack"); vp_check(PI::has_padding(len)==(pad!=0),"has_padding");
    vp_check(PI::last_pack_idx(len)==np-1,"last_pack_idx");
    vp_check(PI::last_vec_end(len)==N-pad,"last_vec_end");
    const int p=(int)vp_int("p",0,2147483646); vp_assume(p<np);
    const int e=PI::vec_end(len,p), left=len-p*N;
    vp_check(e==(left<N?left:N),"vec_end: number of array entries in the pack"); vp_check(e>=1,"no pack is empty");
  }
}
template<int N> void idx() {
  using PI=PackInfo<N>; const int i=(int)vp_int("i",0,2147483647); const int p=PI::pack_idx(i), v=PI::vec_idx(i);
  vp_check(p>=0 && v>=0 && v<N,"pack_idx/vec_idx in range"); vp_check(PI::array_idx(p,v)==i,"array_idx inverts pack_idx/vec_idx");
  const auto pv=PI::pack_vec_idx(i); vp_check(pv.first==p && pv.second==v,"pack_vec_idx agrees"); vp_check(PI::array_idx(pv)==i,"array_idx(pair) inverts pack_vec_idx");
  const int q=(int)vp_int("q",0,2147483646/N), w=(int)vp_int("w",0,N-1); vp_assume((long)q*N+w<=2147483647);
  const int a=PI::array_idx(q,w); vp_check(PI::pack_idx(a)==q && PI::vec_idx(a)==w,"pack_idx/vec_idx invert array_idx");
}
#define PI_INST(N) VP_HARNESS(info_##N) { info<N>(); } VP_HARNESS(idx_##N) { idx<N>(); }
PI_INST(1) PI_INST(2) PI_INST(4) PI_INST(8) PI_INST(16) PI_INST(32)

constexpr long MX=1<<12;
using HR=Kokkos::LayoutRight; using HS=Kokkos::HostSpace;
#define SZ(nm) vp_size(nm,0,MX,4)
// element (.., j) of the scalar view is lane j%N of pack (.., j/N) of the original one: same memory
template<class T,int N,int R,class VP> auto scl(const VP& v, const long* i, long p, int l) {
  auto s=scalarize(v); using S=decltype(s); static_assert(std::is_same<typename S::non_const_value_type,T>::value && S::Rank==R,"scalarize: type and rank");
  for (int k=0;k<R;++k) vp_check((long)s.extent(k)==(long)v.extent(k)*(k==R-1?N:1),"scalarize: extents");
  long j=p*N+l;
  if constexpr (R==1) vp_check(&s(j)==&v(p)[l],"scalarize: same element");
  if constexpr (R==2) vp_check(&s(i[0],j)==&v(i[0],p)[l],"scalarize: same element");
  if constexpr (R==3) vp_check(&s(i[0],i[1],j)==&v(i[0],i[1],p)[l],"scalarize: same element");
  if constexpr (R==4) vp_check(&s(i[0],i[1],i[2],j)==&v(i[0],i[1],i[2],p)[l],"scalarize: same element");
  return s;
}
template<class T,int N,int M,class V,int R> void rpk(const V& s, const long* i, long q, int l, bool ispack) {
  auto r=repack<M>(s); using RV=decltype(r); static_assert(RV::Rank==R && std::is_same<typename RV::non_const_value_type,Pack<T,M>>::value,"repack: type and rank");
  const long last=(long)s.extent(R-1)*(ispack?N:1);
  for (int k=0;k<R-1;++k) vp_check(r.extent(k)==s.extent(k),"repack: leading extents");
  vp_check((long)r.extent(R-1)*M==last,"repack: last extent"); vp_assume(q<(long)r.extent(R-1));
  long j=q*M+l; auto f=scalarize(s);
  if constexpr (R==1) vp_check(&r(q)[l]==&f(j),"repack: same element");
  if constexpr (R==2) vp_check(&r(i[0],q)[l]==&f(i[0],j),"repack: same element");
  if constexpr (R==3) vp_check(&r(i[0],i[1],q)[l]==&f(i[0],i[1],j),"repack: same element");
}
template<class T,int N,int M> void views() {
  using P=Pack<T,N>; long n0=SZ("n0"), n1=SZ("n1"), n2=SZ("n2"); const int L=M>N?M/N:1; // the new pack size divides the last extent
  long k=vp_size("k",0,MX/8,3); long last=k*L;
  long i[3]={vp_size("i0",0,MX,4),vp_size("i1",0,MX,4),vp_size("i2",0,MX,4)}; long p=vp_size("p",0,MX,8); int l=(int)vp_int("l",0,N-1); long q=vp_size("q",0,MX,8); int m=(int)vp_int("m",0,M-1);
  vp_assume(i[0]<n0 && i[1]<n1 && i[2]<n2 && p<last);
  { T* d=vp_array<T>("d1",last*N); Kokkos::View<P*,HR,HS> v((P*)d,last); scl<T,N,1>(v,i,p,l); rpk<T,N,M,decltype(v),1>(v,i,q,m,true);
    Kokkos::View<const P*,HR,HS> c(v); auto s=scalarize(c); static_assert(std::is_const<typename decltype(s)::value_type>::value,"constness is kept"); vp_check(&s(p*N+l)==&v(p)[l],"scalarize of a const view"); }
  { T* d=vp_array<T>("d2",n0*last*N); Kokkos::View<P**,HR,HS> v((P*)d,n0,last); scl<T,N,2>(v,i,p,l); rpk<T,N,M,decltype(v),2>(v,i,q,m,true); }
  { T* d=vp_array<T>("d3",n0*n1*last*N); Kokkos::View<P***,HR,HS> v((P*)d,n0,n1,last); scl<T,N,3>(v,i,p,l); rpk<T,N,M,decltype(v),3>(v,i,q,m,true); }
  { T* d=vp_array<T>("d4",n0*n1*n2*last*N); Kokkos::View<P****,HR,HS> v((P*)d,n0,n1,n2,last); scl<T,N,4>(v,i,p,l); }
}
VP_HARNESS(views_d_4_1) { views<double,4,1>(); } VP_HARNESS(views_d_4_2) { views<double,4,2>(); } VP_HARNESS(views_d_2_8) { views<double,2,8>(); } VP_HARNESS(views_f_8_8) { views<float,8,8>(); } VP_HARNESS(views_i_16_4) { views<int,16,4>(); } VP_HARNESS(views_d_1_4) { views<double,1,4>(); }
// plain scalar views
template<class T,int M> void plain() {
  long n0=SZ("n0"), n1=SZ("n1"), k=vp_size("k",0,MX/8,3), last=k*M; long i[2]={vp_size("i0",0,MX,4),vp_size("i1",0,MX,4)}; long q=vp_size("q",0,MX,8); int m=(int)vp_int("m",0,M-1);
  vp_assume(i[0]<n0 && i[1]<n1);
  { T* d=vp_array<T>("d1",last); Kokkos::View<T*,HR,HS> v(d,last); rpk<T,1,M,decltype(v),1>(v,i,q,m,false); auto s=scalarize(v); vp_check(s.data()==v.data() && s.extent(0)==v.extent(0),"scalarize of a scalar view is the identity"); }
  { T* d=vp_array<T>("d2",n0*last); Kokkos::View<T**,HR,HS> v(d,n0,last); rpk<T,1,M,decltype(v),2>(v,i,q,m,false); }
  { T* d=vp_array<T>("d3",n0*n1*last); Kokkos::View<T***,HR,HS> v(d,n0,n1,last); rpk<T,1,M,decltype(v),3>(v,i,q,m,false); }
}
VP_HARNESS(plain_d4) { plain<double,4>(); } VP_HARNESS(plain_f16) { plain<float,16>(); } VP_HARNESS(plain_i2) { plain<int,2>(); }
// a last extent the pack size does not divide is refused
VP_HARNESS(refused) { vp_abort_ok(); long n=SZ("n"); vp_assume(n%4!=0); double* d=vp_array<double>("d",n); Kokkos::View<double*,HR,HS> v(d,n); auto r=repack<4>(v); vp_check(false,"repack of an extent that is not a multiple of the pack size does not return"); }
