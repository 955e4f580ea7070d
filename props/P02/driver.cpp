// Masks and masked selection: a lane is touched exactly when its mask bit is set.
#include "vp_pack.hpp"
using namespace ekat;
#define EACH(N) for (int i=0;i<N;++i)

template<int N> void masks() {
  auto a=bits<N>("a"), b=bits<N>("b"); bool s=vp_in<bool>("s"); const Mask<N> m=mk(a), q=mk(b);
  EACH(N) vp_check(m[i]==a[i],"set/operator[]");
  Mask<N> f(s); EACH(N) vp_check(f[i]==s,"broadcast construction");
  bool any=false, all=true; EACH(N) { any|=a[i]; all&=a[i]; }
  vp_check(m.any()==any,"any: some lane is set"); vp_check(m.all()==all,"all: every lane is set"); vp_check(m.none()==!any,"none: no lane is set");
  Mask<N> x=m&&q; EACH(N) vp_check(x[i]==(a[i]&b[i]),"mask && mask is lane-wise");
  x=m||q; EACH(N) vp_check(x[i]==(a[i]|b[i]),"mask || mask is lane-wise");
  x=m&&s; EACH(N) vp_check(x[i]==(a[i]&s),"mask && bool is lane-wise");
  x=m||s; EACH(N) vp_check(x[i]==(a[i]|s),"mask || bool is lane-wise");
  x=!m; EACH(N) vp_check(x[i]==!a[i],"negation is lane-wise");
  bool same=true; EACH(N) same&=(a[i]==b[i]); vp_check((m==q)==same,"mask == mask: all lanes agree");
  Mask<N> w=m; w.set(N/2,s); EACH(N) vp_check(w[i]==(i==N/2?s:a[i]),"set writes only its lane");
  int cnt=0, e=0; ekat_masked_loop(m,k) cnt+=1<<k; EACH(N) if (a[i]) e+=1<<i; vp_check(cnt==e,"ekat_masked_loop visits exactly the set lanes, once");
  cnt=0; ekat_masked_loop_no_vec(m,k) cnt+=1<<k; vp_check(cnt==e,"ekat_masked_loop_no_vec visits exactly the set lanes, once");
}
VP_HARNESS(masks_1) { masks<1>(); } VP_HARNESS(masks_4) { masks<4>(); } VP_HARNESS(masks_8) { masks<8>(); } VP_HARNESS(masks_16) { masks<16>(); }

#define CMP(NAME,OP) \
template<class T,int N> void cmp_##NAME() { \
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"); T s=vp_in<T>("s"); const Pack<T,N> p=mk(a), q=mk(b); \
  Mask<N> m=(p OP q); EACH(N) vp_check(m[i]==(a[i] OP b[i]),"pack " #OP " pack is lane-wise"); \
  m=(p OP s); EACH(N) vp_check(m[i]==(a[i] OP s),"pack " #OP " scalar is lane-wise"); \
  m=(s OP p); EACH(N) vp_check(m[i]==(s OP a[i]),"scalar " #OP " pack is lane-wise"); } \
VP_INST(cmp_##NAME)
CMP(eq,==) CMP(ne,!=) CMP(lt,<) CMP(le,<=) CMP(gt,>) CMP(ge,>=)

template<class T,int N> void nans() {
  auto a=lanes<T,N>("a"); Mask<N> m=ekat::isnan(mk(a)); EACH(N) vp_check(m[i]==vp_t<T>::nan(a[i]),"isnan is lane-wise");
}
VP_INST_F(nans)

template<class T,int N> void setm() {
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"), c=lanes<T,N>("c"); auto mb=bits<N>("m"); T s=vp_in<T>("s"), t=vp_in<T>("t"); const Mask<N> m=mk(mb); const Pack<T,N> B=mk(b), C=mk(c);
  { Pack<T,N> p=mk(a); auto& r=p.set(m,s); EACH(N) vp_check(vp_same(p[i],mb[i]?s:a[i]),"set(mask,scalar)"); vp_check(&r==&p,"set returns *this"); }
  { Pack<T,N> p=mk(a); p.set(m,B); EACH(N) vp_check(vp_same(p[i],mb[i]?b[i]:a[i]),"set(mask,pack)"); }
  { Pack<T,N> p=mk(a); p.set(m,s,t); EACH(N) vp_check(vp_same(p[i],mb[i]?s:t),"set(mask,scalar,scalar)"); }
  { Pack<T,N> p=mk(a); p.set(m,B,C); EACH(N) vp_check(vp_same(p[i],mb[i]?b[i]:c[i]),"set(mask,pack,pack)"); }
  { Pack<T,N> p(m,s); EACH(N) vp_check(vp_same(p[i],mb[i]?s:T(0)),"Pack(mask,scalar)"); }
  { Pack<T,N> p(m,s,t); EACH(N) vp_check(vp_same(p[i],mb[i]?s:t),"Pack(mask,scalar,scalar)"); }
  { Pack<T,N> p(m,B); EACH(N) vp_check(vp_same(p[i],mb[i]?b[i]:T(0)),"Pack(mask,pack)"); }
  { Pack<T,N> p(m,B,C); EACH(N) vp_check(vp_same(p[i],mb[i]?b[i]:c[i]),"Pack(mask,pack,pack)"); }
}
VP_INST(setm)
// the operands may be (lanes of) the pack being set
template<class T,int N> void setalias() {
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"); auto mb=bits<N>("m"); const Mask<N> m=mk(mb); const Pack<T,N> B=mk(b);
  { Pack<T,N> p=mk(a); p.set(m,p[0]); EACH(N) vp_check(vp_same(p[i],mb[i]?a[0]:a[i]),"set(mask,own lane)"); }
  { Pack<T,N> p=mk(a); p.set(m,p[0],p[N-1]); EACH(N) vp_check(vp_same(p[i],mb[i]?a[0]:a[N-1]),"set(mask,own lane,own lane) uses the values from before the call"); }
  { Pack<T,N> p=mk(a); p.set(m,B,p); EACH(N) vp_check(vp_same(p[i],mb[i]?b[i]:a[i]),"set(mask,pack,*this)"); }
}
VP_INST(setalias)

#define WH(NAME,OP) \
template<class T,int N> void where_##NAME() { \
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"); auto mb=bits<N>("m"); T s=vp_in<T>("s"); const Mask<N> m=mk(mb); const Pack<T,N> B=mk(b); \
  if (#OP[0]=='/') { nonzero(b); nonzero(s); } T e[N]; \
  { Pack<T,N> p=mk(a); auto& r=(where(m,p) OP s); EACH(N) { e[i]=a[i]; if (mb[i]) e[i] OP s; } EACH(N) vp_check(vp_same(p[i],e[i]),"where(m,p) " #OP " scalar changes the selected lanes only"); vp_check(&r==&p,"the pack is returned"); } \
  { Pack<T,N> p=mk(a); where(m,p) OP B; EACH(N) { e[i]=a[i]; if (mb[i]) e[i] OP b[i]; } EACH(N) vp_check(vp_same(p[i],e[i]),"where(m,p) " #OP " pack changes the selected lanes only"); } \
} \
VP_HARNESS(where_##NAME##_d1) { where_##NAME<double,1>(); } VP_HARNESS(where_##NAME##_d4) { where_##NAME<double,4>(); } VP_HARNESS(where_##NAME##_f8) { where_##NAME<float,8>(); } VP_HARNESS(where_##NAME##_d16) { where_##NAME<double,16>(); }
WH(asg,=) WH(add,+=) WH(sub,-=) WH(mul,*=) WH(div,/=)
template<class T,class S,int N> void wheremix() {
  auto a=lanes<T,N>("a"); auto b=lanes<S,N>("b"); auto mb=bits<N>("m"); const Mask<N> m=mk(mb); const Pack<S,N> B=mk(b);
  S s=vp_in<S>("s"); nonzero(b); nonzero(s);
  { Pack<T,N> p=mk(a); where(m,p)=B; EACH(N) vp_check(vp_same(p[i],mb[i]?T(b[i]):a[i]),"where = pack of another type"); }
#define WMX(OP) { Pack<T,N> p=mk(a); where(m,p) OP B; EACH(N) { T e=a[i]; e OP b[i]; vp_check(vp_same(p[i],mb[i]?e:a[i]),"where " #OP " pack of another type"); } } \
  { Pack<T,N> p=mk(a); where(m,p) OP s; EACH(N) { T e=a[i]; e OP s; vp_check(vp_same(p[i],mb[i]?e:a[i]),"where " #OP " scalar of another type"); } }
  WMX(+=) WMX(-=) WMX(*=) WMX(/=)
}
VP_HARNESS(wheremix_fd4) { wheremix<float,double,4>(); } VP_HARNESS(wheremix_df4) { wheremix<double,float,4>(); } VP_HARNESS(wheremix_di2) { wheremix<double,int,2>(); }

// the mask is copied when the expression is made; later changes of the mask have no effect
template<class T,int N> void wherequery() {
  auto a=lanes<T,N>("a"); auto mb=bits<N>("m"); T s=vp_in<T>("s"); Mask<N> m=mk(mb); Pack<T,N> p=mk(a);
  auto w=where(m,p); bool any=false, all=true; EACH(N) { any|=mb[i]; all&=mb[i]; }
  vp_check(w.any()==any,"any"); vp_check(w.all()==all,"all"); vp_check(w.none()==!any,"none"); vp_check(&w.value()==&p,"value is the pack");
  EACH(N) vp_check(w.mask()[i]==mb[i],"mask");
  T mx=s, mn=s; EACH(N) if (mb[i]) { mx = mx<a[i]?a[i]:mx; mn = a[i]<mn?a[i]:mn; }
  vp_check(vp_same(w.max(s),mx),"max over the selected lanes and the given value"); vp_check(vp_same(w.min(s),mn),"min over the selected lanes and the given value");
  EACH(N) m.set(i,!mb[i]);
  w=s; EACH(N) vp_check(vp_same(p[i],mb[i]?s:a[i]),"the mask is captured at construction");
}
VP_HARNESS(wherequery_d1) { wherequery<double,1>(); } VP_HARNESS(wherequery_d4) { wherequery<double,4>(); } VP_HARNESS(wherequery_f8) { wherequery<float,8>(); }
#define SW(OP) { T l=s, e=s; T& r=(l OP where(m,p)); EACH(N) if (mb[i]) e OP a[i]; vp_check(vp_same(l,e),"scalar " #OP " where(m,p) uses the selected lanes in order"); vp_check(&r==&l,"the scalar is returned"); }
template<class T,int N> void scalarwhere() {
  auto a=lanes<T,N>("a"); auto mb=bits<N>("m"); T s=vp_in<T>("s"); const Mask<N> m=mk(mb); Pack<T,N> p=mk(a);
  SW(+=) SW(-=) SW(*=) SW(/=)
}
VP_HARNESS(scalarwhere_d1) { scalarwhere<double,1>(); } VP_HARNESS(scalarwhere_d4) { scalarwhere<double,4>(); } VP_HARNESS(scalarwhere_f8) { scalarwhere<float,8>(); }

// where on a single scalar behaves as a pack of one lane
template<class T> void wherescalar() {
  T a=vp_in<T>("a"), b=vp_in<T>("b"); bool m=vp_in<bool>("m");
#define WS(OP) { T v=a, e=a; if (m) e OP b; where(m,v) OP b; vp_check(vp_same(v,e),"where(bool,scalar) " #OP); }
  WS(=) WS(+=) WS(-=) WS(*=) WS(/=)
  T v=a; auto w=where(m,v); vp_check(w.any()==m && w.all()==m && w.none()==!m,"any/all/none of a scalar mask");
}
VP_HARNESS(wherescalar_d) { wherescalar<double>(); } VP_HARNESS(wherescalar_f) { wherescalar<float>(); }

// masked update and add touch the selected lanes only
template<class T,int N> void maskupd() {
  auto y=lanes<T,N>("y"), x=lanes<T,N>("x"), w=lanes<T,N>("w"); auto m=bits<N>("m"); T al=vp_in<T>("alpha"), be=vp_in<T>("beta"); const Pack<T,N> X=mk(x), W=mk(w); const Mask<N> M=mk(m);
  { Pack<T,N> p=mk(y); p.update(M,X,al,be); EACH(N) vp_check(vp_same(p[i],m[i]?T(be*y[i]+al*x[i]):y[i]),"masked update leaves the other lanes"); }
  { Pack<T,N> p=mk(y); p.update(M,X,W,al,be); EACH(N) vp_check(vp_same(p[i],m[i]?T(be*y[i]+al*x[i]):T(be*y[i]+al*w[i])),"update with a true and a false pack"); }
  { Pack<T,N> p=mk(y); p.add(M,X,al); EACH(N) vp_check(vp_same(p[i],m[i]?T(T(1)*y[i]+al*x[i]):y[i]),"masked add leaves the other lanes"); }
  { Pack<T,N> p=mk(y); p.add(M,X,W,al); EACH(N) vp_check(vp_same(p[i],m[i]?T(T(1)*y[i]+al*x[i]):T(T(1)*y[i]+al*w[i])),"add with a true and a false pack"); }
}
VP_HARNESS(maskupd_d4) { maskupd<double,4>(); } VP_HARNESS(maskupd_f8) { maskupd<float,8>(); }
