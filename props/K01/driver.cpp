// 2d and 3d transposes between C and Fortran index order
#include "vp.hpp"
#include <ekat_math_utils.hpp>
using namespace ekat;
using TD=TransposeDirection;
template<class T, bool CT> void t2(bool c2f) {
  const long MX=46340; long ni=vp_size("ni",0,MX,6), nk=vp_size("nk",0,MX,6), n=ni*nk; 
  T* s=vp_array<T>("s",n); T* d=vp_array<T>("d",n); 
  long i=vp_int("i",0,MX), k=vp_int("k",0,MX); vp_assume(i<ni); vp_assume(k<nk);
  vp_focus2(k,i);
  long c=nk*i+k, f=ni*k+i; T sc=s[c], sf=s[f];
  if constexpr (CT) { if (c2f) transpose<TD::c2f>((const T*)s,d,(int)ni,(int)nk); else transpose<TD::f2c>((const T*)s,d,(int)ni,(int)nk); }
  else transpose((const T*)s,d,(int)ni,(int)nk,c2f?TD::c2f:TD::f2c);
  if (c2f) vp_check(vp_same(d[f],sc),"c2f: element (i,k) moves from row-major to column-major position");
  else vp_check(vp_same(d[c],sf),"f2c: element (i,k) moves from column-major to row-major position");
  vp_check(vp_same(s[c],sc) && vp_same(s[f],sf),"the source is unchanged");
}
VP_HARNESS(c2f_d) { t2<double,true>(true); } VP_HARNESS(f2c_f) { t2<float,true>(false); }
VP_HARNESS(c2f_i_rt) { t2<int,false>(true); } VP_HARNESS(f2c_d_rt) { t2<double,false>(false); }
template<class T, bool CT> void t3(bool c2f) {
  const long MX=1290; long ni=vp_size("ni",0,MX,5), nk=vp_size("nk",0,MX,5), nj=vp_size("nj",0,MX,5), n=ni*nk*nj; 
  T* s=vp_array<T>("s",n); T* d=vp_array<T>("d",n); 
  long i=vp_int("i",0,MX), k=vp_int("k",0,MX), j=vp_int("j",0,MX); vp_assume(i<ni); vp_assume(k<nk); vp_assume(j<nj);
  vp_focus3(j,k,i);
  long c=nk*nj*i+k*nj+j, f=ni*nk*j+k*ni+i; T sc=s[c], sf=s[f];
  if constexpr (CT) { if (c2f) transpose<TD::c2f>((const T*)s,d,(int)ni,(int)nk,(int)nj); else transpose<TD::f2c>((const T*)s,d,(int)ni,(int)nk,(int)nj); }
  else transpose((const T*)s,d,(int)ni,(int)nk,(int)nj,c2f?TD::c2f:TD::f2c);
  if (c2f) vp_check(vp_same(d[f],sc),"c2f: element (i,k,j) moves from row-major to column-major position");
  else vp_check(vp_same(d[c],sf),"f2c: element (i,k,j) moves from column-major to row-major position");
  vp_check(vp_same(s[c],sc) && vp_same(s[f],sf),"the source is unchanged");
}
VP_HARNESS(c2f3_d) { t3<double,true>(true); } VP_HARNESS(f2c3_f) { t3<float,true>(false); }
VP_HARNESS(c2f3_i_rt) { t3<int,false>(true); } VP_HARNESS(f2c3_d_rt) { t3<double,false>(false); }
