// Checks: EKAT_REQUIRE and friends throw exactly when the condition is false.
#include "vp.hpp"
#include <string>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <typeinfo>
#include <cstdio>
#include <ekat_assert.hpp>
#ifndef VP_NATIVE
static bool may_abort_; extern "C" void vp_stop();
namespace Kokkos { static void abort(const char*) { vp_check(may_abort_,"aborts only when the condition is false"); vp_stop(); } }
#else
struct Aborted {}; namespace Kokkos { static void abort(const char*) { throw Aborted(); } }
#endif
#include <ekat_kernel_assert.hpp>
struct Plain {};                                     // cannot be made from a text
struct Texted { int n; Texted(const std::string&) : n(7) {} };
struct Odd { Odd(int,int) {} };                      // neither from a text nor from nothing
static int evals_;
static bool cond(bool c) { ++evals_; return c; }
enum Kind { NONE, RUNTIME, INVALID, LOGIC, PLAIN, TEXTED, OTHER };
template<class F> Kind caught(F f) { evals_=0; try { f(); } catch (std::runtime_error&) { return RUNTIME; } catch (std::invalid_argument&) { return INVALID; } catch (std::logic_error&) { return LOGIC; } catch (Plain&) { return PLAIN; } catch (Texted&) { return TEXTED; } catch (...) { return OTHER; } return NONE; }
// run while n exceptions are in flight
#ifndef VP_NATIVE
extern "C" void vp_in_flight(int n);
template<class F> Kind during(int n, F f) { vp_in_flight(n); Kind k=caught(f); vp_in_flight(0); return k; }
#else
template<class F> void fly(int n, const F& f, Kind& k);
template<class F> struct At { int n; const F& f; Kind& k; ~At() { fly(n-1,f,k); } };
template<class F> void fly(int n, const F& f, Kind& k) { if (n<=0) { k=caught(f); return; } try { At<F> a{n,f,k}; throw 1; } catch (int) {} }
template<class F> Kind during(int n, const F& f) { Kind k=OTHER; fly(n,f,k); return k; }
#endif
static bool C() { return vp_int("condition",0,1)!=0; }
static void is(Kind k, bool c, Kind w) { vp_check(k==(c?NONE:w),"the exception asked for is thrown exactly when the condition is false"); vp_check(evals_==1,"the condition is evaluated once"); }
#define ENTRY(N,CALL,W) VP_HARNESS(N) { bool c=C(); Kind k=caught([&]{ CALL; }); is(k,c,W); Kind k2=caught([&]{ CALL; }); is(k2,c,W); }
ENTRY(require,EKAT_REQUIRE(cond(c)),RUNTIME)
ENTRY(require_text,EKAT_REQUIRE(cond(c),"text " << 3),RUNTIME)
ENTRY(require_invalid,EKAT_REQUIRE(cond(c),"text",std::invalid_argument),INVALID)
ENTRY(require_logic,EKAT_REQUIRE(cond(c),"text",std::logic_error),LOGIC)
ENTRY(require_plain,EKAT_REQUIRE(cond(c),"text",Plain),PLAIN)
ENTRY(require_texted,EKAT_REQUIRE(cond(c),"text",Texted),TEXTED)
ENTRY(require_odd,EKAT_REQUIRE(cond(c),"text",Odd),RUNTIME)
ENTRY(require_msg,EKAT_REQUIRE_MSG(cond(c),"text"),RUNTIME)
VP_HARNESS(error) { vp_check(caught([&]{ EKAT_ERROR_MSG("text"); })==RUNTIME,"always throws"); }
// the condition is any expression, and the macro is one statement
VP_HARNESS(expression) { int a=(int)vp_int("a",-1000,1000), b=(int)vp_int("b",-1000,1000); vp_check(caught([&]{ EKAT_REQUIRE(a==1 || b==2); })==((a==1||b==2)?NONE:RUNTIME),"a disjunction"); vp_check(caught([&]{ EKAT_REQUIRE_MSG(a<b && b<5,"x"); })==((a<b&&b<5)?NONE:RUNTIME),"a conjunction"); vp_check(caught([&]{ EKAT_REQUIRE(a & b,"x",std::logic_error); })==((a&b)?NONE:LOGIC),"bits");
  bool other=false; Kind k=caught([&]{ if (a>0) EKAT_REQUIRE(b>0); else other=true; }); vp_check(other==(a<=0) && k==(a>0&&b<=0?RUNTIME:NONE),"one statement"); }
// the text is only put together when it is needed
VP_HARNESS(lazy) { bool c=C(); int made=0; auto text=[&]{ ++made; return "x"; }; caught([&]{ EKAT_REQUIRE_MSG(cond(c),text()); }); vp_check(made==(c?0:1),"the text is put together only on failure"); }
// while the stack is being unwound: no second exception
VP_HARNESS(unwinding) { bool c=C(); int n=(int)vp_int("inflight",0,5); Kind k=during(n,[&]{ EKAT_REQUIRE(cond(c)); }); is(k,c||n>0,RUNTIME); k=during(n,[&]{ EKAT_REQUIRE(cond(c),"x",Plain); }); is(k,c||n>0,PLAIN); k=during(n,[&]{ EKAT_REQUIRE(cond(c),"x",Odd); }); is(k,c||n>0,RUNTIME); k=caught([&]{ EKAT_REQUIRE_MSG(cond(c),"x"); }); is(k,c,RUNTIME); n=(int)vp_int("again",0,5); k=during(n,[&]{ EKAT_REQUIRE(cond(c),"x",std::invalid_argument); }); is(k,c||n>0,INVALID); }
// debug checks
#ifdef NDEBUG
VP_HARNESS(assert_off) { bool c=C(); Kind k=caught([&]{ EKAT_ASSERT(cond(c)); EKAT_ASSERT_MSG(cond(c),"x"); EKAT_KERNEL_ASSERT(cond(c)); EKAT_KERNEL_ASSERT_MSG(cond(c),"x"); }); vp_check(k==NONE && evals_==0,"release builds do not look at the condition"); }
#else
ENTRY(assert_on,EKAT_ASSERT(cond(c)),RUNTIME)
ENTRY(assert_msg,EKAT_ASSERT_MSG(cond(c),"text"),RUNTIME)
#endif
// checks in kernels abort
#ifndef VP_NATIVE
#define KERNEL(N,CALL) VP_HARNESS(N) { bool c=C(); evals_=0; may_abort_=!c; CALL; vp_check(c,"aborts when the condition is false"); vp_check(evals_==1,"the condition is evaluated once"); }
#else
#define KERNEL(N,CALL) VP_HARNESS(N) { bool c=C(), ab=false; evals_=0; try { CALL; } catch (Aborted&) { ab=true; } vp_check(ab==!c,"aborts exactly when the condition is false"); vp_check(evals_==1,"the condition is evaluated once"); }
#endif
KERNEL(kernel,EKAT_KERNEL_REQUIRE(cond(c)))
KERNEL(kernel_msg,EKAT_KERNEL_REQUIRE_MSG(cond(c),"text"))
#ifndef NDEBUG
KERNEL(kernel_assert,EKAT_KERNEL_ASSERT(cond(c)))
KERNEL(kernel_assert_msg,EKAT_KERNEL_ASSERT_MSG(cond(c),"text"))
#endif
