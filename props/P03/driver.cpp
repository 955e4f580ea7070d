// Pack reductions and lane movement
#include "vp_pack.hpp"
using namespace ekat;
#define EACH(N) for (int i=0;i<N;++i)

template<class T,int N> void sums() {
  auto a=lanes<T,N>("a"); T s=vp_in<T>("s"); const Pack<T,N> p=mk(a);
  T e=s; EACH(N) e+=a[i]; T z=T(0); EACH(N) z+=a[i];
  T r=s; reduce_sum<true>(p,r); vp_check(vp_same(r,e),"reduce_sum<true>(p,s): s+p[0]+...+p[n-1], in this order");
  vp_check(vp_same(reduce_sum<true>(p),z),"reduce_sum<true>(p): 0+p[0]+...+p[n-1], in this order");
#ifdef EKAT_DEFAULT_BFB
  r=s; reduce_sum(p,r); vp_check(vp_same(r,e),"BFB default: serialized order"); vp_check(vp_same(reduce_sum(p),z),"BFB default: serialized order");
#endif
}
VP_INST(sums)
// not serialized: any order of the additions (exact arithmetic)
template<class T,int N> void rsums() {
  auto a=lanes<T,N>("a"); T s=vp_in<T>("s"); const Pack<T,N> p=mk(a); T e=s; EACH(N) e+=a[i]; T z=T(0); EACH(N) z+=a[i];
  T r=s; reduce_sum<false>(p,r); vp_check(CLOSE(r,e),"reduce_sum<false>(p,s) adds every lane once to s"); vp_check(CLOSE(reduce_sum<false>(p),z),"reduce_sum<false>(p) adds every lane once");
}
VP_HARNESS(rsums_d1) { rsums<double,1>(); } VP_HARNESS(rsums_d4) { rsums<double,4>(); } VP_HARNESS(rsums_d16) { rsums<double,16>(); } VP_HARNESS(rsums_i8) { rsums<int,8>(); }

template<class T,int N> void extrema() {
  auto a=lanes<T,N>("a"); auto mb=bits<N>("m"); T s=vp_in<T>("s"); const Pack<T,N> p=mk(a); const Mask<N> m=mk(mb);
  T mn=a[0], mx=a[0]; EACH(N) { mn=a[i]<mn?a[i]:mn; mx=mx<a[i]?a[i]:mx; }
  vp_check(vp_same(min(p),mn),"min over the lanes"); vp_check(vp_same(max(p),mx),"max over the lanes");
  mn=s; mx=s; EACH(N) if (mb[i]) { mn=a[i]<mn?a[i]:mn; mx=mx<a[i]?a[i]:mx; }
  vp_check(vp_same(min(m,s,p),mn),"masked min, starting from init"); vp_check(vp_same(max(m,s,p),mx),"masked max, starting from init");
}
VP_INST(extrema)
// what the reductions mean, in exact arithmetic
template<int N> void bounds() {
  auto a=lanes<int,N>("a"); const Pack<int,N> p=mk(a); int mn=min(p), mx=max(p); bool f=false, g=false;
  EACH(N) { vp_check(mn<=a[i] && a[i]<=mx,"min <= lane <= max"); f|=(mn==a[i]); g|=(mx==a[i]); } vp_check(f&&g,"min and max are attained");
}
VP_HARNESS(bounds_1) { bounds<1>(); } VP_HARNESS(bounds_4) { bounds<4>(); } VP_HARNESS(bounds_8) { bounds<8>(); }

template<class T,int N> void shifts() {
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"); T s=vp_in<T>("s"); const Pack<T,N> p=mk(a), q=mk(b);
  Pack<T,N> r=shift_right(q,p); EACH(N) vp_check(vp_same(r[i],i==0?b[N-1]:a[i-1]),"shift_right(pm1,p): the last lane of pm1, then p[0..n-2]");
  r=shift_right(s,p); EACH(N) vp_check(vp_same(r[i],i==0?s:a[i-1]),"shift_right(scalar,p)");
  r=shift_left(q,p); EACH(N) vp_check(vp_same(r[i],i==N-1?b[0]:a[i+1]),"shift_left(pp1,p): p[1..n-1], then the first lane of pp1");
  r=shift_left(s,p); EACH(N) vp_check(vp_same(r[i],i==N-1?s:a[i+1]),"shift_left(scalar,p)");
  Pack<T,N> x=p; x=shift_right(x,x); EACH(N) vp_check(vp_same(x[i],a[(i+N-1)%N]),"shift_right(x,x) rotates");
}
VP_INST(shifts)
template<class T,int N> void ranges() { T s=vp_in<T>("s"); Pack<T,N> r=range<Pack<T,N>>(s); EACH(N) vp_check(vp_same(r[i],T(s+i)),"range(s)[i] = s+i"); }
VP_INST(ranges)
