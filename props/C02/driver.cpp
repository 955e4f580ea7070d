// Scaling factors base^exp: the operations agree with those on the real numbers they stand for (positive bases).
#include "vp.hpp"
#ifdef VP_NATIVE
#include <numeric>
#endif
#include <stdexcept>
#include "ekat_scaling_factor.hpp"
using namespace ekat; using R=RationalConstant; using S=ScalingFactor;
#ifndef VP_NATIVE
extern "C" { bool rc_canon(const R*); bool sf_fits(const S*, const S*); bool sf_mul(const S* r, const S* a, const S* b); bool sf_div(const S* r, const S* a, const S* b); bool sf_pow(const S* r, const S* a, const R* p); bool sf_sqrt(const S* r, const S* a); bool sf_same(const S* a, const S* b); }
#else
static long double v(const R& r) { return (long double)r.num/r.den; }
static long double v(const S& s) { return std::pow(v(s.base),v(s.exp)); }
static bool near(long double a, long double b) { return std::abs(a-b)<=1e-12L*std::abs(b); }
static bool rc_canon(const R* r) { return r->den>=1 && std::gcd(r->num,r->den)==1; }
static bool sf_fits(const S*, const S*) { return true; }
static bool sf_mul(const S* r, const S* a, const S* b) { return near(v(*r),v(*a)*v(*b)); }
static bool sf_div(const S* r, const S* a, const S* b) { return near(v(*r),v(*a)/v(*b)); }
static bool sf_pow(const S* r, const S* a, const R* p) { return near(v(*r),std::pow(v(*a),v(*p))); }
static bool sf_sqrt(const S* r, const S* a) { return near(v(*r)*v(*r),v(*a)); }
static bool sf_same(const S* a, const S* b) { return near(v(*a),v(*b)); }
#endif
static const long BIG=(1l<<62);
static R rat(const char* n, const char* sn, const char* d, bool pos, long nn, long nd) {
  R r=R::one(); long a=vp_size(n,pos?1:0,BIG,nn); if (!pos && vp_int(sn,0,1)) a=-a; long b=vp_size(d,1,BIG,nd);
#ifdef VP_NATIVE
  long g=std::gcd(a,b); a/=g; b/=g;
#endif
  r.num=a; r.den=b; vp_assume(rc_canon(&r)); return r; }
static R base_a() { return rat("an","","ad",true,5,3); } static R base_b() { return rat("bn","","bd",true,5,3); }
static R exp_a() { return rat("cn","cs","cd",false,3,2); } static R exp_b() { return rat("wn","ws","wd",false,3,2); }
// an arbitrary valid factor with a positive base
static S sf(const R& b, const R& e) { S s=S::one(); s.base=b; s.exp=e; return s; }
#ifdef VP_NATIVE
#define TWO S a=sf(base_a(),exp_a()), b=sf(base_b(),exp_b()); if (vp_int("eb",0,3)==0) b.base=a.base; if (vp_int("ee",0,3)==0) b.exp=a.exp; if (vp_int("ew",0,3)==0) { b=a; b.base=R(a.base.num*a.base.num,a.base.den*a.base.den); b.exp=a.exp/2; } vp_assume(sf_fits(&a,&b)); S a0=a, b0=b
#else
#define TWO S a=sf(base_a(),exp_a()), b=sf(base_b(),exp_b()); vp_assume(sf_fits(&a,&b)); S a0=a, b0=b
#endif
static bool eqf(const R& a, const R& b) { return a.num==b.num && a.den==b.den; }
static bool eqf(const S& a, const S& b) { return eqf(a.base,b.base) && eqf(a.exp,b.exp); }
static void ok(const S& r) { vp_check(rc_canon(&r.base) && rc_canon(&r.exp),"base and exponent are in canonical form"); }
#define KEPT vp_check(eqf(a,a0) && eqf(b,b0),"the operands are kept")
VP_HARNESS(mul) { TWO; S r=a*b; ok(r); vp_check(sf_mul(&r,&a,&b),"product"); KEPT; }
VP_HARNESS(div) { TWO; S r=a/b; ok(r); vp_check(sf_div(&r,&a,&b),"quotient"); KEPT; }
VP_HARNESS(mulassign) { TWO; S r=a; S& q=(r*=b); ok(r); vp_check(&q==&r && sf_mul(&r,&a,&b),"product"); KEPT; }
VP_HARNESS(square) { S a=sf(base_a(),exp_a()); vp_assume(sf_fits(&a,&a)); S r=a; r*=r; ok(r); vp_check(sf_mul(&r,&a,&a),"product with itself"); }
VP_HARNESS(eq) { TWO; bool e=a==b, n=a!=b; vp_check(e==sf_same(&a,&b),"equal exactly when the numbers are equal"); vp_check(n==!e,"different exactly when not equal"); KEPT; }
VP_HARNESS(mixed) { S a=sf(base_a(),exp_a()); R q=base_b(); S b=sf(q,R::one()); vp_assume(sf_fits(&a,&b)); vp_assume(sf_fits(&b,&a)); int k=vp_int("k",0,5);
  if (k==0) { S r=a*q; ok(r); vp_check(sf_mul(&r,&a,&b),"product with a rational"); } else if (k==1) { S r=q*a; ok(r); vp_check(sf_mul(&r,&b,&a),"product of a rational"); } else if (k==2) { S r=a/q; ok(r); vp_check(sf_div(&r,&a,&b),"quotient by a rational"); } else if (k==3) { S r=q/a; ok(r); vp_check(sf_div(&r,&b,&a),"quotient of a rational"); }
  else if (k==4) vp_check((a==q)==sf_same(&a,&b),"equal to a rational"); else vp_check((q==a)==sf_same(&b,&a),"a rational equal to it"); }
VP_HARNESS(power) { S a=sf(base_a(),exp_a()); R p=exp_b(); S r=pow(a,p); ok(r); vp_check(sf_pow(&r,&a,&p),"power"); }
VP_HARNESS(poweri) { S a=sf(base_a(),exp_a()); int p=(int)vp_int("p",-2147483647l,2147483647);
#ifdef VP_NATIVE
  p%=4;
#endif
  R q=R::one(); q.num=p; S r=pow(a,p); ok(r); vp_check(sf_pow(&r,&a,&q),"power"); }
VP_HARNESS(root) { S a=sf(base_a(),exp_a()); S r=sqrt(a); ok(r); vp_check(sf_sqrt(&r,&a),"square root"); }
// construction: any base
VP_HARNESS(make) { R b=rat("an","as","ad",false,5,3), e=exp_a(); bool thrown=false; S r=S::one(); try { r=S(b,e); } catch (std::invalid_argument&) { thrown=true; }
  vp_check(thrown==((b.num==0 && e.num==0) || (b.num<0 && e.den%2==0)),"refused exactly for 0^0 and even roots of negative numbers");
  if (!thrown) { ok(r); if (e.num==0) vp_check(r.base.num==1 && r.base.den==1 && r.exp.num==1 && r.exp.den==1,"x^0 is 1"); else vp_check(eqf(r.base,b) && eqf(r.exp,e),"base and exponent as given"); } }
VP_HARNESS(make1) { R b=rat("an","as","ad",false,5,3); S r(b); vp_check(eqf(r.base,b) && r.exp.num==1 && r.exp.den==1,"a rational is its first power"); S o=S::one(), z=S::zero(); vp_check(o.base.num==1 && o.base.den==1 && o.exp.num==1 && o.exp.den==1,"one"); vp_check(z.base.num==0 && z.base.den==1 && z.exp.num==1 && z.exp.den==1,"zero"); }
VP_HARNESS(prefix) { using namespace prefixes; auto ten=[](const S& s, int k) { return s.base.num==10 && s.base.den==1 && s.exp.num==k && s.exp.den==1; }; S n=nano, u=micro, m=milli, c=centi, h=hecto, k=kilo, M=mega, G=giga; vp_check(ten(n,-9) && ten(u,-6) && ten(m,-3) && ten(c,-2) && ten(h,2) && ten(k,3) && ten(M,6) && ten(G,9),"the prefixes are powers of ten"); }
