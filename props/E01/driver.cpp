// Expressions: every entry of the evaluated expression is the scalar formula on the entries of the operands
#include "vp.hpp"
#include <string>
#include <stdexcept>
#include <ekat_expression_eval.hpp>
#include <ekat_expression_binary_op.hpp>
#include <ekat_expression_binary_predicate.hpp>
#include <ekat_expression_conditional.hpp>
#include <ekat_expression_math.hpp>
#include <ekat_expression_view.hpp>
using namespace ekat;
constexpr long MX=1<<7;
template<class T,int R> struct ND { using type=typename ND<T,R-1>::type*; }; template<class T> struct ND<T,0> { using type=T; };
using Host=Kokkos::Device<Kokkos::OpenMP,Kokkos::HostSpace>;
template<class T,int R> using View=Kokkos::View<typename ND<T,R>::type,Kokkos::LayoutRight,Host,Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template<class V,size_t... I> auto& at_(const V& v, const long* i, std::index_sequence<I...>) { return v((int)i[I]...); }
template<class T,int R,size_t... I> View<T,R> mk_(T* p, const long* n, std::index_sequence<I...>) { return View<T,R>(p,n[I]...); }
static const char* const N_="n0\0n1\0n2\0n3\0n4\0n5\0n6\0n7\0"; static const char* const I_="i0\0i1\0i2\0i3\0i4\0i5\0i6\0i7\0";
template<int R> struct Box { long n[R?R:1], i[R?R:1], s=1; bool in=true; long mx=R<=3?MX:8;
  Box() { for (int k=0;k<R;++k) { n[k]=vp_size(N_+3*k,0,mx,R<4?4:2); i[k]=vp_size(I_+3*k,0,mx,R<4?3:1); s*=n[k]; vp_assume(i[k]<n[k]); } }
  template<class T> View<T,R> view(const char* nm) { return mk_<T,R>(vp_array<T>(nm,s),n,std::make_index_sequence<R>()); }
  template<class V> auto& at(const V& v) { return at_(v,i,std::make_index_sequence<R>()); }
  template<class E,size_t... K> auto ev_(const E& e, std::index_sequence<K...>) { return e.eval((int)i[K]...); }
  template<class E> auto ev(const E& e) { return ev_(e,std::make_index_sequence<R>()); }
  void focus() { if constexpr (R==1) vp_focus(i[0]); if constexpr (R==2) vp_focus2(i[0],i[1]); if constexpr (R==3) vp_focus3(i[0],i[1],i[2]); if constexpr (R==4) vp_focus4(i[0],i[1],i[2],i[3]);
    if constexpr (R==5) vp_focus5(i[0],i[1],i[2],i[3],i[4]); if constexpr (R==6) vp_focus6(i[0],i[1],i[2],i[3],i[4],i[5]); if constexpr (R==7) vp_focus7(i[0],i[1],i[2],i[3],i[4],i[5],i[6]); if constexpr (R==8) vp_focus8(i[0],i[1],i[2],i[3],i[4],i[5],i[6],i[7]); }
};
template<class A,class B> bool same(const A& a, const B& b) { return vp_same(a,(A)b); }
template<class T> T vp_val(const char* nm) { if constexpr (std::is_same<T,double>::value) return vp_f64(nm); else if constexpr (std::is_same<T,float>::value) return vp_f32(nm); else return (T)vp_int(nm,-30000,30000); }
// expressions are made here and used after this frame is gone: they own their operands
template<class F,class... A> auto make(const F& f, A... a) { return f(a...); }
// integer operands for which nothing overflows
template<class T> void small(T v) { if constexpr (std::is_integral<T>::value && !std::is_same<T,bool>::value) { vp_assume(v>=-30000); vp_assume(v<=30000); } }
#define BOX(R) Box<R> b; const auto x=b.template view<X>("x"); const auto y=b.template view<Y>("y"); auto xe=expression(x); auto ye=expression(y); const X u=b.at(x); const Y w=b.at(y); small(u); small(w)
#define CK(EXPR,REF,WHAT) { auto e=make([](auto p, auto q) { return EXPR; },xe,ye); auto got=b.ev(e); vp_check(same<decltype(got)>(got,REF),WHAT); vp_check(e.rank()==RANK,"rank of the operands"); if constexpr (RANK>0) vp_check(e.extent(0)==b.n[0],"extent of the operands"); if constexpr (RANK>1) vp_check(e.extent(RANK-1)==b.n[RANK-1],"extent of the operands"); }
template<class X,class Y,int RANK> void arith() { BOX(RANK);
  CK(p+q,u+w,"+") CK(p-q,u-w,"-") CK(p*q,u*w,"*") CK(-p,-u,"unary -") CK(-(-q),-(-w),"unary - twice") CK(p-(q-p),u-(w-u),"nested -") }
template<class X,class Y,int RANK> void division() { BOX(RANK); if constexpr (std::is_integral<Y>::value && std::is_integral<X>::value) { vp_assume(w!=0); vp_assume(w!=-1); } CK(p/q,u/w,"/") }
template<class X,class Y,int RANK,class S> void scal(S s) { BOX(RANK); (void)ye; (void)w;
#define CS(EXPR,REF,WHAT) { auto e=make([](auto p, auto s) { return EXPR; },xe,s); auto got=b.ev(e); vp_check(same<decltype(got)>(got,REF),WHAT); if constexpr (RANK>0) vp_check(e.extent(RANK-1)==b.n[RANK-1],"extent of the operand"); vp_check(e.rank()==RANK,"rank of the operand"); }
  CS(p+s,u+s,"expr+scalar") CS(s+p,s+u,"scalar+expr") CS(p-s,u-s,"expr-scalar") CS(s-p,s-u,"scalar-expr") CS(p*s,u*s,"expr*scalar") CS(s*p,s*u,"scalar*expr")
  if constexpr (!(std::is_integral<X>::value && std::is_integral<S>::value)) { CS(p/s,u/s,"expr/scalar") CS(s/p,s/u,"scalar/expr") } }
template<class X,class Y,int RANK> void pred() { BOX(RANK);
  CK(p==q,u==w,"==") CK(p!=q,u!=w,"!=") CK(p>q,u>w,">") CK(p>=q,u>=w,">=") CK(p<q,u<w,"<") CK(p<=q,u<=w,"<=") CK((p<q)&&(q>p),(u<w)&&(w>u),"&&") CK((p<q)||(q==p),(u<w)||(w==u),"||") CK((p<=q)&&(q!=p),(u<=w)&&(w!=u),"&& of different predicates") }
template<class X,class Y,int RANK,class S> void predscal(S s) { BOX(RANK); (void)ye; (void)w;
  CS(p==s,u==s,"expr==scalar") CS(s==p,s==u,"scalar==expr") CS(p!=s,u!=s,"expr!=scalar") CS(s!=p,s!=u,"scalar!=expr") CS(p>s,u>s,"expr>scalar") CS(s>p,s>u,"scalar>expr") CS(p>=s,u>=s,"expr>=scalar") CS(s>=p,s>=u,"scalar>=expr") CS(p<s,u<s,"expr<scalar") CS(s<p,s<u,"scalar<expr") CS(p<=s,u<=s,"expr<=scalar") CS(s<=p,s<=u,"scalar<=expr") }
template<int RANK> void boolean() { using X=bool; using Y=bool; BOX(RANK); CK(p&&q,u&&w,"&&") CK(p||q,u||w,"||") CK(p==q,u==w,"== of flags") CK(p!=q,u!=w,"!= of flags") bool s=vp_int("flag",0,1); CS(p&&s,u&&s,"expr&&flag") CS(s&&p,s&&u,"flag&&expr") CS(p||s,u||s,"expr||flag") CS(s||p,s||u,"flag||expr") }
template<class X,class Y,int RANK> void cond() { BOX(RANK); const double t=vp_f64("t"); const bool flag=vp_int("flag",0,1);
  CK(if_then_else(p<q,p,q),u<w?u:w,"if_then_else") CK(if_then_else(p<q,p-q,q-p),u<w?u-w:w-u,"if_then_else of expressions")
#define CF(EXPR,REF,WHAT) { auto e=make([](auto p, auto q, auto t, auto flag) { return EXPR; },xe,ye,t,flag); auto got=b.ev(e); vp_check(same<decltype(got)>(got,REF),WHAT); if constexpr (RANK>0) vp_check(e.extent(RANK-1)==b.n[RANK-1],"extent of the operands"); vp_check(e.rank()==RANK,"rank of the operands"); }
  CF(if_then_else(p<q,p,t),u<w?u:t,"if_then_else(expr,expr,scalar)") CF(if_then_else(p<q,t,q),u<w?t:w,"if_then_else(expr,scalar,expr)") CF(if_then_else(p<q,t,1.0),u<w?t:1.0,"if_then_else(expr,scalar,scalar)")
  CF(if_then_else(flag,p,q),flag?u:w,"if_then_else(flag,expr,expr)") CF(if_then_else(flag,p,t),flag?u:t,"if_then_else(flag,expr,scalar)") CF(if_then_else(flag,t,q),flag?t:w,"if_then_else(flag,scalar,expr)") }
template<class X,class Y,int RANK> void math() { BOX(RANK); 
  CK(sqrt(p),Kokkos::sqrt(u),"sqrt") CK(exp(p),Kokkos::exp(u),"exp") CK(log(p),Kokkos::log(u),"log") CK(sin(p),Kokkos::sin(u),"sin") CK(cos(p),Kokkos::cos(u),"cos") CK(pow(p,q),Kokkos::pow(u,w),"pow")
  CK(exp(-p)*sin(q),Kokkos::exp(-u)*Kokkos::sin(w),"product of functions") 
  const X s=vp_val<X>("s"); CS(pow(p,s),Kokkos::pow(u,s),"pow(expr,scalar)") CS(pow(s,p),Kokkos::pow(s,u),"pow(scalar,expr)") }
template<class X,class Y,int RANK> void mm() { BOX(RANK); using C=std::common_type_t<X,Y>; CK(ekat::max(p,q),Kokkos::max((C)u,(C)w),"max") CK(ekat::min(p,q),Kokkos::min((C)u,(C)w),"min") 
  const C s=vp_val<C>("s"); CS(ekat::max(p,s),Kokkos::max((C)u,s),"max(expr,scalar)") CS(ekat::max(s,p),Kokkos::max(s,(C)u),"max(scalar,expr)") CS(ekat::min(p,s),Kokkos::min((C)u,s),"min(expr,scalar)") CS(ekat::min(s,p),Kokkos::min(s,(C)u),"min(scalar,expr)") }
#define ALLT(M) M(double,double,d) M(float,double,fd) M(int,double,id) M(double,int,di) M(int,int,i) M(long,float,lf)
#define A1(X,Y,t) VP_HARNESS(arith_##t) { arith<X,Y,1>(); } VP_HARNESS(div_##t) { division<X,Y,1>(); } VP_HARNESS(pred_##t) { pred<X,Y,1>(); } VP_HARNESS(mm_##t) { mm<X,Y,1>(); }
ALLT(A1)
VP_HARNESS(arith_r0) { arith<double,double,0>(); } VP_HARNESS(arith_r2) { arith<double,double,2>(); } VP_HARNESS(arith_r3) { arith<double,double,3>(); } VP_HARNESS(arith_r5) { arith<double,double,5>(); } VP_HARNESS(arith_r8) { arith<double,double,8>(); }
VP_HARNESS(scal_dd) { scal<double,double,1>(vp_f64("s")); } VP_HARNESS(scal_di) { scal<double,double,2>((int)vp_int("s",-1000000,1000000)); } VP_HARNESS(scal_id) { scal<int,int,1>(vp_f64("s")); } VP_HARNESS(scal_ii) { scal<int,int,3>((int)vp_int("s",-30000,30000)); }
VP_HARNESS(pscal_dd) { predscal<double,double,1>(vp_f64("s")); } VP_HARNESS(pscal_di) { predscal<double,double,2>((int)vp_int("s",-1000000,1000000)); } VP_HARNESS(pscal_id) { predscal<int,int,1>(vp_f64("s")); } 
VP_HARNESS(bool_1) { boolean<1>(); } VP_HARNESS(bool_0) { boolean<0>(); }
VP_HARNESS(cond_d) { cond<double,double,1>(); } VP_HARNESS(cond_d3) { cond<double,double,3>(); } VP_HARNESS(cond_0) { cond<double,double,0>(); } VP_HARNESS(cond_id) { cond<int,double,2>(); } 
VP_HARNESS(math_d) { math<double,double,1>(); } VP_HARNESS(math_f) { math<float,float,2>(); } VP_HARNESS(mm_r0) { mm<double,double,0>(); }
// --- evaluate: every entry of the result, for every rank; refused when the extents differ
template<int R> void eval() {
  Box<R> b; const auto x=b.template view<double>("x"), y=b.template view<double>("y"), z=b.template view<double>("z"); 
  auto e=make([](auto p, auto q) { return if_then_else(p<q,p*q-1/q,2*p); },expression(x),expression(y)); const double u=b.at(x), w=b.at(y);
  b.focus(); evaluate(e,z);
  vp_check(vp_same(b.at(z),u<w?u*w-1/w:2*u),"evaluate: every entry is the formula on the operands' entries"); vp_check(vp_same(b.at(x),u) && vp_same(b.at(y),w),"operands unchanged");
}
#define EV(R) VP_HARNESS(eval_##R) { eval<R>(); }
EV(0) EV(1) EV(2) EV(3) EV(4) EV(5) EV(6) EV(7) EV(8)
template<int R> void bad() {
  long n[R], m[R], s=1, t=1; bool eq=true; for (int k=0;k<R;++k) { n[k]=vp_size(N_+3*k,0,R<=3?MX:8,3); m[k]=vp_size(I_+3*k,0,R<=3?MX:8,3); s*=n[k]; t*=m[k]; eq=vp_and(eq,n[k]==m[k]); }
  auto x=mk_<double,R>(vp_array<double>("x",s),n,std::make_index_sequence<R>()); auto z=mk_<double,R>(vp_array<double>("z",t),m,std::make_index_sequence<R>());
  bool thrown=false; try { evaluate(2*expression(x),z); } catch (std::exception&) { thrown=true; }
  vp_check(thrown==!eq,"evaluate: refused exactly when an extent of the result differs");
}
VP_HARNESS(bad_1) { bad<1>(); } VP_HARNESS(bad_2) { bad<2>(); } VP_HARNESS(bad_3) { bad<3>(); } VP_HARNESS(bad_6) { bad<6>(); }
