// Units: dimensions add, subtract and scale; scalings multiply, divide and are raised to powers.
#include "vp.hpp"
#ifdef VP_NATIVE
#include <numeric>
#endif
#include <stdexcept>
#include <array>
#include <string>
#include <string_view>
#include <sstream>
#include <iostream>
#include <limits>
#include <any>
#include <typeinfo>
#include <functional>
#include <iomanip>
#include <cmath>
#include <utility>
#include <cstdint>
#include <cassert>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <memory>
#include <algorithm>
#define private public
#include "ekat_units.hpp"
#undef private
using namespace ekat; using R=RationalConstant; using S=ScalingFactor; using U=units::Units;
#ifndef VP_NATIVE
extern "C" { bool rc_canon(const R*); bool rc_is(const R* r, const R* a, const R* b, int op); bool sf_is(const S* r, const S* a, const S* b, int op); bool sf_pow_is(const S* r, const S* a, const R* p); bool rc_same(const R*, const R*); bool sf_same(const S*, const S*); }
#else
static bool rc_canon(const R* r) { return r->den>=1 && std::gcd(r->num,r->den)==1; }
static bool rc_is(const R* r, const R* a, const R* b, int op) { return rc_canon(r) && *r == (op==0 ? *a+*b : op==1 ? *a-*b : *a*(*b)); }
static long double v(const R& r) { return (long double)r.num/r.den; }
static long double v(const S& s) { return std::pow(v(s.base),v(s.exp)); }
static bool near(long double a, long double b) { return std::abs(a-b)<=1e-12L*std::abs(b); }
static bool sf_is(const S* r, const S* a, const S* b, int op) { return near(v(*r), op==0 ? v(*a)*v(*b) : v(*a)/v(*b)); }
static bool sf_pow_is(const S* r, const S* a, const R* p) { return near(v(*r),std::pow(v(*a),v(*p))); }
static bool rc_same(const R* a, const R* b) { return *a==*b; }
static bool sf_same(const S* a, const S* b) { return near(v(*a),v(*b)); }
#endif
static const long BIG=(1l<<62);
static R rat(const char* n, long i, bool pos, long nn, long nd) {
  R r=R::one();
#ifdef VP_NATIVE
  long a=vp_inti(n,3*i,pos?1:-nn,nn), b=vp_inti(n,3*i+1,1,nd); long g=std::gcd(a,b); a/=g; b/=g;
#else
  long a=vp_inti(n,3*i,pos?1:-BIG,BIG), b=vp_inti(n,3*i+1,1,BIG);
#endif
  r.num=a; r.den=b; vp_assume(rc_canon(&r)); return r; }
static S fac(const char* n) { S s=S::one(); s.base=rat(n,10,true,5,3); s.exp=rat(n,11,false,2,2); return s; }
// arbitrary units; the text is any word of up to three characters
static U un(const char* n) { U u(S::one()); u.m_scaling=fac(n); for (int k=0;k<7;++k) u.m_units[k]=rat(n,k,false,3,3); u.m_string_repr[0]='a'; u.m_string_repr[1]='b'; u.m_string_repr[2]='\0'; return u; }
static bool eqf(const R& a, const R& b) { return a.num==b.num && a.den==b.den; }
static bool eqf(const S& a, const S& b) { return eqf(a.base,b.base) && eqf(a.exp,b.exp); }
static bool eqf(const U& a, const U& b) { bool r=eqf(a.m_scaling,b.m_scaling); for (int k=0;k<7;++k) r=vp_and(r,eqf(a.m_units[k],b.m_units[k])); return r; }
static void dims(const U& r, const U& a, const U& b, int op) { for (int k=0;k<7;++k) vp_check(rc_is(&r.m_units[k],&a.m_units[k],&b.m_units[k],op),op==0?"each dimension is the sum":"each dimension is the difference"); vp_check(sf_is(&r.m_scaling,&a.m_scaling,&b.m_scaling,op),op==0?"the scalings multiply":"the scalings divide"); }
static U plain(const S& s) { U u(S::one()); u.m_scaling=s; return u; }
VP_HARNESS(mul) { U a=un("a"), b=un("b"), a0=a, b0=b; U r=a*b; dims(r,a0,b0,0); vp_check(vp_and(eqf(a,a0),eqf(b,b0)),"operands are kept"); }
VP_HARNESS(div) { U a=un("a"), b=un("b"), a0=a, b0=b; U r=a/b; dims(r,a0,b0,1); vp_check(vp_and(eqf(a,a0),eqf(b,b0)),"operands are kept"); }
VP_HARNESS(square) { U a=un("a"); U r=a*a; dims(r,a,a,0); }
VP_HARNESS(power) { U a=un("a"); R p=rat("p",0,false,2,2); U r=pow(a,p); for (int k=0;k<7;++k) vp_check(rc_is(&r.m_units[k],&a.m_units[k],&p,2),"each dimension is multiplied by the power"); vp_check(sf_pow_is(&r.m_scaling,&a.m_scaling,&p),"the scaling is raised to the power"); }
VP_HARNESS(root) { U a=un("a"); R h=R::one(); h.den=2; vp_assume(rc_canon(&h)); U r=sqrt(a); for (int k=0;k<7;++k) vp_check(rc_is(&r.m_units[k],&a.m_units[k],&h,2),"each dimension is halved"); vp_check(sf_pow_is(&r.m_scaling,&a.m_scaling,&h),"the root of the scaling"); }
static void scaled(const U& r, const U& a, const S& s, bool inv) { for (int k=0;k<7;++k) vp_check(rc_same(&r.m_units[k],&a.m_units[k]),"the dimensions are kept"); vp_check(sf_is(&r.m_scaling,&a.m_scaling,&s,inv?1:0),"the scaling is multiplied"); }
static void inverse(const U& r, const U& a, const S& s) { R z=R::zero(); for (int k=0;k<7;++k) vp_check(rc_is(&r.m_units[k],&z,&a.m_units[k],1),"the dimensions are negated"); vp_check(sf_is(&r.m_scaling,&s,&a.m_scaling,1),"the scaling is inverted"); }
VP_HARNESS(scale) { U a=un("a"); S s=fac("s"); U r=s*a; scaled(r,a,s,false); }
VP_HARNESS(scale_r) { U a=un("a"); S s=fac("s"); U r=a*s; scaled(r,a,s,false); }
VP_HARNESS(scale_div) { U a=un("a"); S s=fac("s"); U r=a/s; scaled(r,a,s,true); }
VP_HARNESS(scale_inv) { U a=un("a"); S s=fac("s"); U r=s/a; inverse(r,a,s); }
VP_HARNESS(number) { U a=un("a"); R q=rat("q",0,true,5,3); S s=S::one(); s.base=q; int k=vp_int("k",0,3); if (k==0) { U r=q*a; scaled(r,a,s,false); } else if (k==1) { U r=a*q; scaled(r,a,s,false); } else if (k==2) { U r=a/q; scaled(r,a,s,true); } else { U r=q/a; inverse(r,a,s); } }
// units whose text is not a symbol of its own
VP_HARNESS(scale_compound) { U a=un("a"); a.m_string_repr[1]='*'; a.m_string_repr[2]='c'; a.m_string_repr[3]='\0'; S s=fac("s"); U r=s*a; scaled(r,a,s,false); }
static S ten(int k) { S s=S::one(); s.base.num=10; s.exp.num=k; return s; }
VP_HARNESS(prefixed) { U a=un("a"); using namespace prefixes; int k=vp_int("k",0,7); if (k==0) { U r=nano*a; scaled(r,a,ten(-9),false); } else if (k==1) { U r=micro*a; scaled(r,a,ten(-6),false); } else if (k==2) { U r=milli*a; scaled(r,a,ten(-3),false); } else if (k==3) { U r=centi*a; scaled(r,a,ten(-2),false); } else if (k==4) { U r=hecto*a; scaled(r,a,ten(2),false); } else if (k==5) { U r=kilo*a; scaled(r,a,ten(3),false); } else if (k==6) { U r=mega*a; scaled(r,a,ten(6),false); } else { U r=giga*a; scaled(r,a,ten(9),false); } }
VP_HARNESS(compare) { U a=un("a"), b=un("b");
#ifdef VP_NATIVE
  if (vp_int("same",0,3)) { for (int k=0;k<7;++k) if (!vp_inti("differs",k,0,9)==0) b.m_units[k]=a.m_units[k]; if (vp_int("samescale",0,1)) b.m_scaling=a.m_scaling; }
#endif
  bool same=sf_same(&a.m_scaling,&b.m_scaling); for (int k=0;k<7;++k) same=vp_and(same,rc_same(&a.m_units[k],&b.m_units[k])); vp_check((a==b)==same,"equal exactly when scaling and dimensions are"); vp_check((a!=b)!=same,"different exactly when not equal"); U c=a.rename("q"); vp_check(eqf(c,a),"renaming keeps the units"); vp_check(a==c,"the name does not matter"); }
VP_HARNESS(kind) { U a=un("a");
#ifdef VP_NATIVE
  for (int k=0;k<7;++k) if (vp_inti("zero",k,0,9)) a.m_units[k]=R::zero();
#endif
  bool z=true; for (int k=0;k<7;++k) z=vp_and(z,a.m_units[k].num==0); vp_check(a.is_dimensionless()==z,"dimensionless exactly when every exponent is zero"); S o=S::one(); vp_check(a.is_scaled()!=sf_same(&a.m_scaling,&o),"scaled exactly when the factor is not one"); }
VP_HARNESS(make) { R e[7]={rat("e",0,false,3,3),rat("e",1,false,3,3),rat("e",2,false,3,3),rat("e",3,false,3,3),rat("e",4,false,3,3),rat("e",5,false,3,3),rat("e",6,false,3,3)}; S s=fac("s"); U u(e[0],e[1],e[2],e[3],e[4],e[5],e[6],s,"xy"); for (int k=0;k<7;++k) vp_check(eqf(u.m_units[k],e[k]),"the dimensions as given"); vp_check(eqf(u.m_scaling,s),"the scaling as given"); U d(s); for (int k=0;k<7;++k) vp_check(d.m_units[k].num==0,"no dimension"); vp_check(eqf(d.m_scaling,s),"the scaling as given"); U n(u,"z"); vp_check(eqf(n,u),"renaming keeps the units"); }
// the named units: kg, m, s, K, A, mol, cd exponents and the factor num/den
static void si(const U& u, long num, long den, int m, int s, int kg, int K, int A, int mol, int cd) { const int e[7]={m,s,kg,K,A,mol,cd}; for (int k=0;k<7;++k) vp_check(u.m_units[k].num==e[k] && u.m_units[k].den==1,"the dimensions of the unit"); S f=S::one(); f.base.num=num; f.base.den=den; vp_assume(rc_canon(&f.base)); vp_check(sf_same(&u.m_scaling,&f),"the scaling of the unit"); }
VP_HARNESS(named) { namespace n=ekat::units;
  { U u=n::m; si(u,1,1, 1,0,0,0,0,0,0); } { U u=n::s; si(u,1,1, 0,1,0,0,0,0,0); } { U u=n::kg; si(u,1,1, 0,0,1,0,0,0,0); } { U u=n::K; si(u,1,1, 0,0,0,1,0,0,0); } { U u=n::A; si(u,1,1, 0,0,0,0,1,0,0); } { U u=n::mol; si(u,1,1, 0,0,0,0,0,1,0); } { U u=n::cd; si(u,1,1, 0,0,0,0,0,0,1); } { U u=n::none; si(u,1,1, 0,0,0,0,0,0,0); }
  { U u=n::h; si(u,3600,1, 0,1,0,0,0,0,0); } { U u=n::day; si(u,86400,1, 0,1,0,0,0,0,0); } { U u=n::year; si(u,31536000,1, 0,1,0,0,0,0,0); } { U u=n::g; si(u,1,1000, 0,0,1,0,0,0,0); }
  { U u=n::N; si(u,1,1, 1,-2,1,0,0,0,0); } { U u=n::Pa; si(u,1,1, -1,-2,1,0,0,0,0); } { U u=n::bar; si(u,100000,1, -1,-2,1,0,0,0,0); } { U u=n::atm; si(u,101325,1, -1,-2,1,0,0,0,0); } { U u=n::J; si(u,1,1, 2,-2,1,0,0,0,0); } { U u=n::W; si(u,1,1, 2,-3,1,0,0,0,0); }
  { U u=n::C; si(u,1,1, 0,1,0,0,1,0,0); } { U u=n::V; si(u,1,1, 2,-3,1,0,-1,0,0); } { U u=n::T; si(u,1,1, 0,-2,1,0,-1,0,0); } { U u=n::F; si(u,1,1, -2,4,-1,0,2,0,0); } { U u=n::Wb; si(u,1,1, 2,-2,1,0,-1,0,0); } { U u=n::H; si(u,1,1, 2,-2,1,0,-2,0,0); } { U u=n::Sv; si(u,1,1, 2,-2,0,0,0,0,0); } { U u=n::Hz; si(u,1,1, 0,-1,0,0,0,0,0); } { U u=n::rad; si(u,1,1, 0,0,0,0,0,0,0); } { U u=n::sr; si(u,1,1, 0,0,0,0,0,0,0); }
  { U u=n::dyn; si(u,1,100000, 1,-2,1,0,0,0,0); } { U u=n::rem; si(u,1,100, 2,-2,0,0,0,0,0); } }
