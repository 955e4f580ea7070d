// upper bound of an ascending array
#include <algorithm>
#include "vp.hpp"
#include <ekat_upper_bound.hpp>
template<class T> void ub() {
  const long MX=2147483647; long n=vp_size("n",0,MX,9); T* a=vp_array<T>("a",n); T v=vp_array<T>("v",1)[0];
  long i=vp_int("i",0,MX-1), b=vp_int("b",0,MX-1), e=vp_int("e",0,MX); vp_assume(i<n); vp_assume(b<=e); vp_assume(e<=n); vp_assume(b<=i); vp_assume(i<e);
  vp_assume(v==v);
#ifdef VP_NATIVE
  for (long q=0;q<n;++q) vp_assume(a[q]==a[q]);
  std::sort(a,a+n);
#endif
  T ai=a[i];
  const T* r=ekat::upper_bound((const T*)a+b,(const T*)a+e,v);
  long k=r-a;
  vp_check(k>=b && k<=e,"the result lies in the range");
  vp_check(vp_implies(i<k,ai<=v),"every entry before the result is at most the value");
  vp_check(vp_implies(i>=k,ai>v),"every entry from the result on is greater than the value");
  vp_check(vp_same(a[i],ai),"the array is unchanged");
}
VP_HARNESS(ub_d) { ub<double>(); } VP_HARNESS(ub_f) { ub<float>(); } VP_HARNESS(ub_i) { ub<int>(); } VP_HARNESS(ub_l) { ub<long>(); }
template<class T> void ub0() {
  long n=vp_size("n",0,2147483647,9), b=vp_int("b",0,2147483647); vp_assume(b<=n); T* a=vp_array<T>("a",n); T v=vp_array<T>("v",1)[0];
  vp_check(ekat::upper_bound((const T*)a+b,(const T*)a+b,v)==a+b,"an empty range gives its end");
}
VP_HARNESS(ub0_d) { ub0<double>(); } VP_HARNESS(ub0_i) { ub0<int>(); }
