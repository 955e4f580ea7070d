// Subviews: entry (indices) of the result is the same memory as the stated entry of the original view
#include "vp.hpp"
#include <cassert>
#include <utility>
#include <ekat_subview_utils.hpp>
using namespace ekat;
using LR=Kokkos::LayoutRight; using HS=Kokkos::HostSpace;
constexpr long MX=1<<7;
template<class T,int R> struct ND { using type=typename ND<T,R-1>::type*; }; template<class T> struct ND<T,0> { using type=T; };
template<class T,int R> using View=Kokkos::View<typename ND<T,R>::type,LR,Kokkos::Device<Kokkos::DefaultExecutionSpace,HS>,Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template<class V,size_t... I> auto* at_(const V& v, const long* i, std::index_sequence<I...>) { return &v(i[I]...); }
template<int R,class V> auto* at(const V& v, const long* i) { return at_(v,i,std::make_index_sequence<R>()); }
template<class T,int R,size_t... I> View<T,R> mk_(T* p, const long* n, std::index_sequence<I...>) { return View<T,R>(p,n[I]...); }
template<class V,size_t... I> auto sub_(const V& v, const long* i, std::index_sequence<I...>) { return ekat::subview(v,(int)i[I]...); }
// a view of rank R with symbolic extents, and a valid index into it
template<class T,int R> View<T,R> mk(long* n, long* i) {
  long s=1; for (int k=0;k<R;++k) { n[k]=vp_size(("n0\0n1\0n2\0n3\0n4\0n5\0"+3*k),1,R<=3?MX:16,3); i[k]=vp_size(("i0\0i1\0i2\0i3\0i4\0i5\0"+3*k),0,MX,2); vp_assume(i[k]<n[k]); s*=n[k]; }
  return mk_<T,R>(vp_array<T>("data",s),n,std::make_index_sequence<R>());
}
// leading indices fixed
template<class T,int R,int K> void lead() {
  long n[R], i[R]; auto v=mk<T,R>(n,i);
  auto s=sub_(v,i,std::make_index_sequence<K>()); using S=decltype(s);
  static_assert(S::Rank==R-K && std::is_same<typename S::value_type,T>::value,"subview: rank and type");
  for (int k=K;k<R;++k) vp_check((long)s.extent(k-K)==n[k],"subview: the kept extents");
  vp_check(at<R-K>(s,i+K)==at<R>(v,i),"subview: same element as the original with the leading indices fixed");
}
// the same of a view that is itself a slice (stride of the first dimension not the packed one)
template<class T,int R,int K> void lead_of_slice() {
  long n[R+1], i[R+1]; auto w=mk<T,R+1>(n,i);
  auto v=subview_1(w,(int)i[1]);
  long m[R], j[R]; for (int k=0;k<R;++k) { m[k]=n[k?k+1:0]; j[k]=i[k?k+1:0]; }
  for (int k=0;k<R;++k) vp_check((long)v.extent(k)==m[k],"subview_1: the kept extents");
  auto s=sub_(v,j,std::make_index_sequence<K>());
  for (int k=K;k<R;++k) vp_check((long)s.extent(k-K)==m[k],"subview of slice: the kept extents");
  vp_check(at<R-K>(s,j+K)==at<R+1>(w,i),"subview of slice: same element as the original");
}
template<class T,int R> void second() {
  long n[R], i[R]; auto v=mk<T,R>(n,i);
  auto s=subview_1(v,(int)i[1]); using S=decltype(s);
  static_assert(S::Rank==R-1 && std::is_same<typename S::value_type,T>::value,"subview_1: rank and type");
  long j[R]; for (int k=0;k<R-1;++k) { vp_check((long)s.extent(k)==n[k?k+1:0],"subview_1: the kept extents"); j[k]=i[k?k+1:0]; }
  vp_check(at<R-1>(s,j)==at<R>(v,i),"subview_1: same element as the original with the second index fixed");
}
template<class T,int R> void range(int d) {
  long n[R], i[R]; auto v=mk<T,R>(n,i); 
  long b=vp_size("b",0,MX,3), e=vp_size("e",0,MX,3); vp_assume(b<e); vp_assume(e<=n[d]); vp_assume(b<=i[d]); vp_assume(i[d]<e);
  auto s=[&]{ if constexpr (R==1) return ekat::subview(v,Kokkos::pair<int,int>((int)b,(int)e)); else return ekat::subview(v,Kokkos::pair<int,int>((int)b,(int)e),d); }(); using S=decltype(s);
  static_assert(S::Rank==R && std::is_same<typename S::value_type,T>::value,"multi-slice: rank and type");
  for (int k=0;k<R;++k) vp_check((long)s.extent(k)==(k==d?e-b:n[k]),"multi-slice: extents");
  auto p=at<R>(v,i); i[d]-=b;
  vp_check(at<R>(s,i)==p,"multi-slice: same element as the original, shifted by the start of the slice");
}
#define L(R,K) VP_HARNESS(lead_##R##_##K) { lead<double,R,K>(); }
L(1,1) L(2,1) L(3,1) L(3,2) L(4,1) L(4,2) L(4,3) L(5,1) L(5,2) L(5,3) L(5,4) L(6,1) L(6,2) L(6,3) L(6,4) L(6,5)
#define LS(R,K) VP_HARNESS(slice_##R##_##K) { lead_of_slice<int,R,K>(); }
LS(2,1) LS(3,1) LS(3,2) LS(4,1) LS(4,2) LS(4,3) LS(5,1) LS(5,2) LS(5,3) LS(5,4)
#define S1(R) VP_HARNESS(second_##R) { second<double,R>(); }
S1(2) S1(3) S1(4) S1(5) S1(6)
#define RG(R,D) VP_HARNESS(range_##R##_##D) { range<double,R>(D); }
RG(1,0) RG(2,0) RG(2,1) RG(3,0) RG(3,1) RG(3,2) RG(4,0) RG(4,1) RG(4,2) RG(4,3) RG(5,0) RG(5,1) RG(5,2) RG(5,3) RG(5,4) RG(6,0) RG(6,1) RG(6,2) RG(6,3) RG(6,4) RG(6,5)
