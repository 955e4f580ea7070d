// Pack arithmetic: every operator acts independently and identically on each lane.
#include "vp_pack.hpp"
#include <cmath>
using namespace ekat;
#define EACH(N) for (int i=0;i<N;++i)

template<class T,int N> void construct() {
  Pack<T,N> z; EACH(N) vp_check(vp_same(z[i],T(0)),"default construction zeroes every lane");
  T s=vp_in<T>("s"); Pack<T,N> p(s); EACH(N) vp_check(vp_same(p[i],s),"broadcast construction");
  auto a=lanes<T,N>("a"); Pack<T,N> q=mk(a);
  Pack<T,N> c(q); EACH(N) vp_check(vp_same(c[i],a[i]),"copy construction");
  const Pack<T,N>& cq=q; EACH(N) vp_check(vp_same(cq[i],a[i]),"operator[] const reads the lane");
  EACH(N) { q[i]=s; for (int j=0;j<N;++j) vp_check(vp_same(q[j], j<=i?s:a[j]),"operator[] writes only that lane"); }
  const volatile Pack<T,N>& vc=c; Pack<T,N> w(vc); EACH(N) vp_check(vp_same(w[i],a[i]),"copy from volatile");
}
VP_INST(construct)

template<class T,class S,int N> void convert() {
  auto b=lanes<S,N>("b"); Pack<S,N> q=mk(b);
  Pack<T,N> p(q); EACH(N) vp_check(vp_same(p[i],T(b[i])),"converting construction is lane-wise");
  Pack<T,N> r; r=q; EACH(N) vp_check(vp_same(r[i],T(b[i])),"converting assignment is lane-wise");
  S s=vp_in<S>("s"); Pack<T,N>& ref=(r=s); EACH(N) vp_check(vp_same(r[i],T(s)),"scalar assignment is lane-wise"); vp_check(&ref==&r,"assignment returns *this");
}
VP_HARNESS(convert_dd4) { convert<double,double,4>(); } VP_HARNESS(convert_df4) { convert<double,float,4>(); } VP_HARNESS(convert_fd8) { convert<float,double,8>(); }
VP_HARNESS(convert_di8) { convert<double,int,8>(); } VP_HARNESS(convert_ii16) { convert<int,int,16>(); } VP_HARNESS(convert_li2) { convert<long,int,2>(); }

#define BIN(NAME,OP) \
template<class T,class S,int N> void bin_##NAME() { \
  auto a=lanes<T,N>("a"); auto b=lanes<S,N>("b"); T t=vp_in<T>("t"); S s=vp_in<S>("s"); \
  if (#OP[0]=='/') { nonzero(b); nonzero(s); nonzero(t); nonzero(a); } \
  using C=std::common_type_t<T,S>; const Pack<T,N> p=mk(a); const Pack<S,N> q=mk(b); \
  Pack<C,N> r=p OP q; EACH(N) vp_check(vp_same(r[i],C(a[i] OP b[i])),"pack " #OP " pack is lane-wise"); \
  Pack<C,N> u=p OP s; EACH(N) vp_check(vp_same(u[i],C(a[i] OP s)),"pack " #OP " scalar is lane-wise"); \
  Pack<C,N> w=t OP q; EACH(N) vp_check(vp_same(w[i],C(t OP b[i])),"scalar " #OP " pack is lane-wise"); \
  EACH(N) vp_check(vp_and(vp_same(p[i],a[i]),vp_same(q[i],b[i])),"operands are unchanged"); } \
VP_INST2(bin_##NAME)
BIN(add,+) BIN(sub,-) BIN(mul,*) BIN(div,/)

#define ASG(NAME,OP) \
template<class T,class S,int N> void asg_##NAME() { \
  auto a=lanes<T,N>("a"); auto b=lanes<S,N>("b"); S s=vp_in<S>("s"); \
  if (#OP[0]=='/') { nonzero(b); nonzero(s); } \
  const Pack<S,N> q=mk(b); T e[N]; \
  { Pack<T,N> p=mk(a); Pack<T,N>& ref=(p OP q); EACH(N) { e[i]=a[i]; e[i] OP b[i]; } EACH(N) vp_check(vp_same(p[i],e[i]),"pack " #OP " pack is lane-wise"); vp_check(&ref==&p,#OP " returns *this"); } \
  { Pack<T,N> p=mk(a); p OP s; EACH(N) { e[i]=a[i]; e[i] OP s; } EACH(N) vp_check(vp_same(p[i],e[i]),"pack " #OP " scalar is lane-wise"); } } \
VP_HARNESS(asg_##NAME##_dd4) { asg_##NAME<double,double,4>(); } VP_HARNESS(asg_##NAME##_ff2) { asg_##NAME<float,float,2>(); } VP_HARNESS(asg_##NAME##_df8) { asg_##NAME<double,float,8>(); } \
VP_HARNESS(asg_##NAME##_fd4) { asg_##NAME<float,double,4>(); } VP_HARNESS(asg_##NAME##_di4) { asg_##NAME<double,int,4>(); } VP_HARNESS(asg_##NAME##_ii8) { asg_##NAME<int,int,8>(); } \
VP_HARNESS(asg_##NAME##_dd1) { asg_##NAME<double,double,1>(); } VP_HARNESS(asg_##NAME##_dd16) { asg_##NAME<double,double,16>(); }
ASG(add,+=) ASG(sub,-=) ASG(mul,*=) ASG(div,/=)

// operands that are part of the pack being updated
template<class T,int N> void alias() {
  auto a=lanes<T,N>("a"); nonzero(a);
#define SELF(OP,BOP) { Pack<T,N> p=mk(a); p OP p; EACH(N) vp_check(vp_same(p[i],T(a[i] BOP a[i])),"p " #OP " p"); } \
  for (int k=0;k<N;k+=(N>3?N/2-1:1)) { Pack<T,N> p=mk(a); p OP p[k]; EACH(N) vp_check(vp_same(p[i],T(a[i] BOP a[k])),"p " #OP " p[k] uses the value p[k] had before"); }
  SELF(+=,+) SELF(-=,-) SELF(*=,*) SELF(/=,/)
  { Pack<T,N> p=mk(a); p=p; EACH(N) vp_check(vp_same(p[i],a[i]),"self assignment"); }
  { Pack<T,N> p=mk(a); p=p[N-1]; EACH(N) vp_check(vp_same(p[i],a[N-1]),"p = p[k]"); }
}
VP_INST(alias)

template<class T,int N> void unary() {
  auto a=lanes<T,N>("a"); const Pack<T,N> p=mk(a);
  Pack<T,N> m=-p; EACH(N) vp_check(vp_same(m[i],T(-a[i])),"unary minus is lane-wise");
  Pack<T,N> s=square(p); EACH(N) vp_check(vp_same(s[i],T(a[i]*a[i])),"square is lane-wise");
}
VP_INST(unary)
template<class T,int N> void cubes() { auto a=lanes<T,N>("a"); for (int i=0;i<N;++i) if (std::is_integral<T>::value) vp_assume(a[i]>=-1000 && a[i]<=1000);
  Pack<T,N> s=cube(mk(a)); EACH(N) vp_check(vp_same(s[i],T(a[i]*a[i]*a[i])),"cube is lane-wise"); }
VP_INST(cubes)

template<class T,int N> void minmax() {
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"); T s=vp_in<T>("s"); const Pack<T,N> p=mk(a), q=mk(b);
  Pack<T,N> r=min(p,q); EACH(N) vp_check(vp_same(r[i],b[i]<a[i]?b[i]:a[i]),"min(pack,pack) is lane-wise");
  r=max(p,q); EACH(N) vp_check(vp_same(r[i],a[i]<b[i]?b[i]:a[i]),"max(pack,pack) is lane-wise");
  r=min(p,s); EACH(N) vp_check(vp_same(r[i],s<a[i]?s:a[i]),"min(pack,scalar) is lane-wise");
  r=max(p,s); EACH(N) vp_check(vp_same(r[i],a[i]<s?s:a[i]),"max(pack,scalar) is lane-wise");
  r=min(s,p); EACH(N) vp_check(vp_same(r[i],a[i]<s?a[i]:s),"min(scalar,pack) is lane-wise");
  r=max(s,p); EACH(N) vp_check(vp_same(r[i],s<a[i]?a[i]:s),"max(scalar,pack) is lane-wise");
}
VP_INST(minmax)

#define FN1(F) { Pack<T,N> r=F(p); EACH(N) vp_check(vp_same(r[i],T(Kokkos::F(a[i]))),#F "(pack) is lane-wise"); }
template<class T,int N> void mathfn() {
  auto a=lanes<T,N>("a"); const Pack<T,N> p=mk(a);
  FN1(exp) FN1(expm1) FN1(log) FN1(log10) FN1(tgamma) FN1(sqrt) FN1(cbrt) FN1(tanh) FN1(erf) FN1(abs)
}
VP_INST_F(mathfn)
template<class T,int N> void absint() { auto a=lanes<T,N>("a"); Pack<T,N> r=ekat::abs(mk(a)); EACH(N) vp_check(vp_same(r[i],a[i]<0?-a[i]:a[i]),"abs(pack) is lane-wise"); }
VP_HARNESS(absint_i1) { absint<int,1>(); } VP_HARNESS(absint_i8) { absint<int,8>(); }
template<class T,int N> void powers() {
  auto a=lanes<T,N>("a"), b=lanes<T,N>("b"); T s=vp_in<T>("s"); int k=vp_in<int>("k"); const Pack<T,N> p=mk(a), q=mk(b);
  Pack<T,N> r=pow(p,q); EACH(N) vp_check(vp_same(r[i],T(std::pow(a[i],b[i]))),"pow(pack,pack) is lane-wise");
  r=pow(p,s); EACH(N) vp_check(vp_same(r[i],T(std::pow(a[i],s))),"pow(pack,scalar) is lane-wise");
  r=pow(s,p); EACH(N) vp_check(vp_same(r[i],T(std::pow(s,a[i]))),"pow(scalar,pack) is lane-wise");
  r=pow(p,k); EACH(N) vp_check(vp_same(r[i],T(std::pow(a[i],k))),"pow(pack,int) is lane-wise");
}
VP_INST_F(powers)

// y.update(x,alpha,beta) is beta*y + alpha*x, y.add(x,alpha) is y + alpha*x, on the selected lanes
template<class T,int N> void updates() {
  auto y=lanes<T,N>("y"), x=lanes<T,N>("x"), w=lanes<T,N>("w"); auto m=bits<N>("m"); T al=vp_in<T>("alpha"), be=vp_in<T>("beta");
  const Pack<T,N> X=mk(x), W=mk(w); const Mask<N> M=mk(m);
#define EXP(x) T(be*y[i]+al*x[i])
  { Pack<T,N> p=mk(y); auto& r=p.update(X,al,be); EACH(N) vp_check(vp_same(p[i],EXP(x)),"update"); vp_check(&r==&p,"update returns *this"); }
  { Pack<T,N> p=mk(y); p.update(M,X,al,be); EACH(N) vp_check(vp_same(p[i],m[i]?EXP(x):y[i]),"masked update leaves the other lanes"); }
  { Pack<T,N> p=mk(y); p.update(M,X,W,al,be); EACH(N) vp_check(vp_same(p[i],m[i]?EXP(x):EXP(w)),"update with a true and a false pack"); }
  { Pack<T,N> p=mk(y); p.add(X,al); EACH(N) vp_check(vp_same(p[i],T(T(1)*y[i]+al*x[i])),"add"); }
  { Pack<T,N> p=mk(y); p.add(M,X,al); EACH(N) vp_check(vp_same(p[i],m[i]?T(T(1)*y[i]+al*x[i]):y[i]),"masked add leaves the other lanes"); }
  { Pack<T,N> p=mk(y); p.add(M,X,W,al); EACH(N) vp_check(vp_same(p[i],m[i]?T(T(1)*y[i]+al*x[i]):T(T(1)*y[i]+al*w[i])),"add with a true and a false pack"); }
}
VP_HARNESS(updates_d1) { updates<double,1>(); } VP_HARNESS(updates_d4) { updates<double,4>(); } VP_HARNESS(updates_f8) { updates<float,8>(); } VP_HARNESS(updates_d16) { updates<double,16>(); }
template<int N> void updates_int() {
  auto y=lanes<int,N>("y"), x=lanes<int,N>("x"); auto m=bits<N>("m"); int al=(int)vp_int("alpha",-1000,1000), be=(int)vp_int("beta",-1000,1000);
  const Pack<int,N> X=mk(x); const Mask<N> M=mk(m);
  { Pack<int,N> p=mk(y); p.update(X,al,be); EACH(N) vp_check(p[i]==be*y[i]+al*x[i],"update"); }
  { Pack<int,N> p=mk(y); p.update(X); EACH(N) vp_check(p[i]==x[i],"update with default coefficients is assignment"); }
  { Pack<int,N> p=mk(y); p.update(M,X); EACH(N) vp_check(p[i]==(m[i]?x[i]:y[i]),"masked update with default coefficients is a masked assignment"); }
  { Pack<int,N> p=mk(y); p.add(X); EACH(N) vp_check(p[i]==y[i]+x[i],"add with default coefficient"); }
}
VP_HARNESS(updates_int_1) { updates_int<1>(); } VP_HARNESS(updates_int_8) { updates_int<8>(); }
template<class T,int N> void defaults() {
  auto y=lanes<T,N>("y"), x=lanes<T,N>("x"); const Pack<T,N> X=mk(x);
  { Pack<T,N> p=mk(y); p.update(X); EACH(N) vp_check(vp_same(p[i],T(T(0)*y[i]+T(1)*x[i])),"default coefficients of update are alpha=1, beta=0"); }
  { Pack<T,N> p=mk(y); p.add(X); EACH(N) vp_check(vp_same(p[i],T(T(1)*y[i]+T(1)*x[i])),"default coefficient of add is 1"); }
}
VP_HARNESS(defaults_d4) { defaults<double,4>(); } VP_HARNESS(defaults_f8) { defaults<float,8>(); }

