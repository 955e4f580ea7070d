// Floating-point exceptions: which traps are on after any sequence of calls.
#include "vp.hpp"
#include <string>
#include <cfenv>
#define EKAT_HAVE_FEENABLEEXCEPT
// the floating-point environment: pending flags and enabled traps, one entry per exception
static const int N=7; static const int EXC[N]={FE_INVALID,FE_DIVBYZERO,FE_OVERFLOW,FE_UNDERFLOW,FE_INEXACT,2,64};
static bool flag_[N], trap_[N]; static bool fired_;    // fired_: a trap was switched on while its flag was still raised
static bool valid(int k) { return (EXC[k] & FE_ALL_EXCEPT)!=0; }
static int on() { int r=0; for (int k=0;k<N;++k) r+=trap_[k]?EXC[k]:0; return r; }
static bool sel_[N];                                   // the exceptions of the mask of the entry
static int mask_;
static bool in(int m, int k) { return (m & EXC[k])!=0; }
extern "C" {
int vm_feclearexcept(int m) { for (int k=0;k<N;++k) if (valid(k) && in(m,k)) flag_[k]=false; return 0; }
int vm_feenableexcept(int m) { int r=on(); for (int k=0;k<N;++k) if (valid(k) && in(m,k)) { if (flag_[k]) fired_=true; trap_[k]=true; } return r; }
int vm_fedisableexcept(int m) { int r=on(); for (int k=0;k<N;++k) if (valid(k) && in(m,k)) trap_[k]=false; return r; }
int vm_fegetexcept() { return on(); }
}
namespace std { using ::vm_feclearexcept; }
#define feclearexcept vm_feclearexcept
#define feenableexcept vm_feenableexcept
#define fedisableexcept vm_fedisableexcept
#define fegetexcept vm_fegetexcept
#include <ekat_fpe.cpp>
static bool flag0_[N], trap0_[N];
static void any() { fired_=false; mask_=0; for (int k=0;k<N;++k) { flag_[k]=flag0_[k]=valid(k) && vp_inti("flag",k,0,1)!=0; trap_[k]=trap0_[k]=valid(k) && vp_inti("trap",k,0,1)!=0; sel_[k]=vp_inti("in",k,0,1)!=0; mask_+=sel_[k]?EXC[k]:0; } }
static void kept(int k) { vp_check(trap_[k]==trap0_[k],"the other traps are left alone"); vp_check(flag_[k]==flag0_[k],"the other flags are left alone"); }
VP_HARNESS(enable) { any(); ekat::enable_fpes(mask_); for (int k=0;k<N;++k) if (valid(k)) { if (sel_[k]) vp_check(trap_[k],"the exceptions of the mask trap"); else kept(k); } vp_check(!fired_,"no trap fires for what happened before"); vp_check(ekat::get_enabled_fpes()==on(),"the traps that are on are reported"); }
VP_HARNESS(disable) { any(); ekat::disable_fpes(mask_); for (int k=0;k<N;++k) if (valid(k)) { if (sel_[k]) vp_check(!trap_[k],"the exceptions of the mask do not trap"); else kept(k); } vp_check(ekat::get_enabled_fpes()==on(),"the traps that are on are reported"); }
VP_HARNESS(disable_all) { any(); ekat::disable_all_fpes(); for (int k=0;k<N;++k) vp_check(!trap_[k],"nothing traps"); vp_check(ekat::get_enabled_fpes()==0,"the traps that are on are reported"); }
VP_HARNESS(ask) { any(); vp_check(ekat::get_enabled_fpes()==on(),"the traps that are on are reported"); for (int k=0;k<N;++k) if (valid(k)) kept(k); }
VP_HARNESS(around) { any(); ekat::enable_fpes(mask_); ekat::disable_fpes(mask_); for (int k=0;k<N;++k) if (valid(k)) { vp_check(trap_[k]==(trap0_[k] && !sel_[k]),"off again"); } }
static bool has(const std::string& s, const char* w) { return s.find(w)!=std::string::npos; }
VP_HARNESS(text) { any(); std::string s=ekat::fpe_config_string(); const char* names[5]={"FE_INVALID","FE_DIVBYZERO","FE_OVERFLOW","FE_UNDERFLOW","FE_INEXACT"}; bool none=true;
#ifdef VP_NATIVE
  for (int k=0;k<5;++k) { vp_check(has(s,names[k])==trap_[k],"names exactly the traps that are on"); } for (int k=0;k<N;++k) none=none&&!trap_[k]; vp_check(has(s,"NONE")==none,"NONE exactly when nothing traps");
#endif
  for (int k=0;k<N;++k) if (valid(k)) kept(k); }
