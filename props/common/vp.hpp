// Contract entries.  A VP_HARNESS is {requires (vp_assume); call of the real code; ensures (vp_check)}.
// The same text is read by the obligation generator (inputs are universally quantified) and, compiled
// natively against the real dependencies, replays counterexamples / samples inputs.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstdint>
#include <type_traits>

#ifndef VP_NATIVE
// ------------------------------------------------------------------ proof mode
extern "C" {
void   vp_assume(bool c);
void   vp_check(bool c, const char* what);
long   vp_int(const char* nm, long lo, long hi);
long   vp_inti(const char* nm, long i, long lo, long hi);
long   vp_size(const char* nm, long lo, long hi, long native_hi);
double vp_f64i(const char* nm, long i);
float  vp_f32i(const char* nm, long i);
bool   vp_same_f64(double a, double b);
bool   vp_same_f32(float a, float b);
bool   vp_isnan_f64(double a);
bool   vp_isnan_f32(float a);
void*  vp_arr(const char* nm, long n, int kind);      // kind: 0 f64 1 f32 2 i32 3 i64 4 i8
bool   vp_implies(bool a, bool b);
bool   vp_and(bool a, bool b);
bool   vp_or(bool a, bool b);
void   vp_focus(long i);                              // iteration of interest for the next parallel loop
void   vp_focus2(long i, long j);
void   vp_focus3(long i, long j, long k);
void   vp_focus4(long,long,long,long); void vp_focus5(long,long,long,long,long); void vp_focus6(long,long,long,long,long,long); void vp_focus7(long,long,long,long,long,long,long); void vp_focus8(long,long,long,long,long,long,long,long);
void   vp_unfocus();
void   vp_watch(const void* p);                       // element of interest
void   vp_watch_last();                              // every element that the iterations of interest of the last loop wrote
void   vp_watched_kept(const char* what);             // obligation: they still hold what they held at vp_watch_last
void   vp_cover(bool c, const char* what);
void   vp_abort_ok();                                 // Kokkos::abort is an allowed outcome of this entry
}
#define VP_HARNESS(NAME) extern "C" void h_##NAME()
inline double vp_real(const char* nm, long i=0) { return vp_f64i(nm,i); }
inline double vp_f64(const char* nm) { return vp_f64i(nm,-1); }
inline float  vp_f32(const char* nm) { return vp_f32i(nm,-1); }
inline bool vp_close(double a, double b) { return vp_same_f64(a,b); }
#else
// ------------------------------------------------------------------ native mode
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <ctime>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <functional>
namespace vp {
struct Discard {};
struct Failed { std::string what; };
struct Reg { const char* name; void (*fn)(); };
inline std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
struct AddReg { AddReg(const char* n, void(*f)()) { regs().push_back({n,f}); } };
inline std::mt19937_64& rng() { static std::mt19937_64 r(1); return r; }
inline std::map<std::string,std::string>& preset() { static std::map<std::string,std::string> m; return m; }
inline std::map<std::string,std::string>& vals() { static std::map<std::string,std::string> m; return m; }
inline std::map<std::string,double>& fcache() { static std::map<std::string,double> m; return m; }
inline std::vector<void*>& heap() { static std::vector<void*> h; return h; }
inline const char*& cur() { static const char* c="?"; return c; }
inline std::string key(const char* nm, long i) { return i<0 ? std::string(nm) : std::string(nm)+"."+std::to_string(i); }
inline long pick(long lo, long hi) {
  if (hi<=lo) return lo;
  unsigned long span=(unsigned long)hi-(unsigned long)lo; auto r=rng()();
  switch (r%10) {
    case 0: return lo; case 1: return hi;
    case 2: if (lo<=0 && 0<=hi) return 0; break;
    case 3: { long c=lo+(long)(rng()()%(span<4?span+1:4)); return c; }
    case 4: { long c=hi-(long)(rng()()%(span<4?span+1:4)); return c; }
    case 5: case 6: { long m = (span<40)?(long)span:40; long b = (lo<=0&&0<=hi&&hi-0>=20&&0-lo>=20)?-20:lo; return b+(long)(rng()()%(m+1)); }
  }
  return (span==~0ul) ? (long)rng()() : (long)((unsigned long)lo + rng()()%(span+1));
}
inline long geti(const std::string& k, long lo, long hi) {
  auto v=vals().find(k); if (v!=vals().end()) return atol(v->second.c_str());
  auto it=preset().find(k); long r;
  if (it!=preset().end() && !it->second.empty() && (isdigit(it->second[0])||it->second[0]=='-')) { r=atol(it->second.c_str()); if (r<lo||r>hi) r=pick(lo,hi); }
  else if (it!=preset().end() && (it->second=="True"||it->second=="False")) r = it->second=="True";
  else r=pick(lo,hi);
  vals()[k]=std::to_string(r); return r;
}
inline double getf(const std::string& k, bool special=true) {
  auto v=fcache().find(k); if (v!=fcache().end()) return v->second;
  auto it=preset().find(k); double r; bool have=false;
  if (it!=preset().end() && (isdigit(it->second[0])||it->second[0]=='-'||it->second=="nan"||it->second=="inf")) {
    const char* t=it->second.c_str(); char* e; r=strtod(t,&e); if (*e=='/') r/=strtod(e+1,nullptr); have=true; }
  if (!have) {
    auto q=rng()(); std::uniform_real_distribution<double> u(-3,3);
    if (!special) { r=u(rng()); }
    else switch (q%14) {
      case 0: r=0; break; case 1: r=-0.0; break; case 2: r=1; break; case 3: r=-1; break;
      case 4: r=NAN; break; case 5: r=INFINITY; break; case 6: r=1e-310; break; case 7: r=(double)(long)(q%17)-8; break;
      default: r=u(rng()); } }
  fcache()[k]=r; char b[64]; snprintf(b,64,"%.17g",r); vals()[k]=b; return r;
}
inline void dump(std::string& s) { int n=0; for (auto& kv: vals()) { s+=" "+kv.first+"="+kv.second; if (++n>400) break; } }
inline void fail_line(const std::string& what) {
  std::string s=std::string("FAIL ")+cur()+" ["+what+"]"; dump(s); s+="\n"; fwrite(s.data(),1,s.size(),stdout); fflush(stdout);
}
inline void reset(); inline bool& abort_ok() { static bool b=false; return b; }
inline void reset() { abort_ok()=false; vals().clear(); fcache().clear(); for (auto p: heap()) free(p); heap().clear(); }
inline void on_sig(int sig) { fail_line(sig==SIGALRM?"does not terminate":sig==SIGABRT?"abort":"crash, signal "+std::to_string(sig)); _exit(1); }
}
extern "C" inline void __asan_on_error() { vp::fail_line("memory error (address sanitizer)"); }
#define VP_HARNESS(NAME) static void h_##NAME(); static vp::AddReg reg_##NAME(#NAME,&h_##NAME); static void h_##NAME()
inline void vp_assume(bool c) { if (!c) throw vp::Discard(); }
inline void vp_check(bool c, const char* what) { if (!c) throw vp::Failed{what}; }
inline long vp_int(const char* nm, long lo, long hi) { return vp::geti(nm,lo,hi); }
inline long vp_inti(const char* nm, long i, long lo, long hi) { return vp::geti(vp::key(nm,i),lo,hi); }
inline long vp_size(const char* nm, long lo, long hi, long nh) { return vp::geti(nm,lo,hi<nh?hi:nh); }
inline double vp_f64i(const char* nm, long i) { return vp::getf(vp::key(nm,i)); }
inline float  vp_f32i(const char* nm, long i) { return (float)vp::getf(vp::key(nm,i)); }
inline double vp_real(const char* nm, long i=0) { return vp::getf(vp::key(nm,i),false); }
inline double vp_f64(const char* nm) { return vp_f64i(nm,-1); }
inline float  vp_f32(const char* nm) { return vp_f32i(nm,-1); }
inline bool vp_same_f64(double a, double b) { return (a!=a && b!=b) || std::memcmp(&a,&b,8)==0; }
inline bool vp_same_f32(float a, float b) { return (a!=a && b!=b) || std::memcmp(&a,&b,4)==0; }
inline bool vp_isnan_f64(double a) { return a!=a; }
inline bool vp_isnan_f32(float a) { return a!=a; }
inline bool vp_close(double a, double b) { return a==b || (a!=a && b!=b) || std::fabs(a-b) <= 1e-9*(1+std::fabs(a)+std::fabs(b)); }
inline bool vp_implies(bool a, bool b) { return !a||b; }
inline bool vp_and(bool a, bool b) { return a&&b; }
inline bool vp_or(bool a, bool b) { return a||b; }
inline void vp_focus(long) {} inline void vp_focus2(long,long) {} inline void vp_focus3(long,long,long) {} template<class... L> void vp_focus4(L...) {} template<class... L> void vp_focus5(L...) {} template<class... L> void vp_focus6(L...) {} template<class... L> void vp_focus7(L...) {} template<class... L> void vp_focus8(L...) {} inline void vp_unfocus() {}
inline void vp_watch(const void*) {}
inline void vp_watch_last() {}
inline void vp_watched_kept(const char*) {}
inline void vp_cover(bool, const char*) {}
#ifndef VP_STUB_NATIVE
inline void vp_abort_ok() {}
#endif
inline void* vp_arr(const char* nm, long n, int kind) {
  static const size_t sz[]={8,4,4,8,1}; void* p=malloc(n*sz[kind]+(n==0)); vp::heap().push_back(p);
  for (long i=0;i<n;++i) { std::string k=vp::key(nm,i);
    switch (kind) { case 0: ((double*)p)[i]=vp::getf(k); break; case 1: ((float*)p)[i]=(float)vp::getf(k); break;
      case 2: ((int*)p)[i]=(int)vp::geti(k,-2147483647,2147483647); break; case 3: ((long*)p)[i]=vp::geti(k,-9223372036854775807,9223372036854775807); break;
      default: ((char*)p)[i]=(char)vp::geti(k,-128,127); } }
  return p;
}
#ifdef VP_STUB_NATIVE
// run-time meaning of the executable Kokkos contract (stubs/)
namespace vp { struct Aborted {}; }
extern "C" {
inline int omp_get_thread_num() { return (int)vp::geti("omp_thread",0,3); }
inline int vp_concurrency() { return (int)vp::geti("concurrency",1,8); }
inline void vp_kokkos_abort() { if (vp::abort_ok()) throw vp::Aborted(); throw vp::Failed{"kernel requirement violated (Kokkos::abort)"}; }
inline void vp_bounds(bool c, const char* what) { if (!c) throw vp::Failed{what}; }
inline void vp_lemma(bool) {}
inline void* vp_alloc(long nelem, long bytes, int) { if (bytes<0||bytes>(1l<<28)) throw vp::Discard(); void* p=calloc(bytes+1,1); vp::heap().push_back(p); return p; }
inline void vp_parfor_md(int R, const long* lo, const long* hi, void (*f)(void*, long, long, long, long, long, long, long, long), void* ctx) {
  static int cnt=0; const bool up=(++cnt)&1; long x[8]={0,0,0,0,0,0,0,0}; for (int k=0;k<R;++k) { if (hi[k]<=lo[k]) return; x[k]= up?lo[k]:hi[k]-1; }
  for (;;) { f(ctx,x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7]); int k=R-1;
    for (;k>=0;--k) { if (up) { if (++x[k]<hi[k]) break; x[k]=lo[k]; } else { if (--x[k]>=lo[k]) break; x[k]=hi[k]-1; } } if (k<0) return; } }
inline void vp_parfor(long lo, long hi, void (*f)(void*, long), void* ctx) { // any order of the iterations
  static int cnt=0; if ((++cnt)&1) for (long i=lo;i<hi;++i) f(ctx,i); else for (long i=hi-1;i>=lo;--i) f(ctx,i); }
inline void vp_abort_ok() { vp::abort_ok()=true; }
inline void vp_barrier() {} inline void vp_single_begin() {} inline void vp_single_end() {}
}
#endif
#ifndef VP_SETUP
#define VP_SETUP(argc,argv)
#define VP_TEARDOWN()
#endif
namespace vp {
inline int run1(void(*fn)(), const char* name, bool quiet=false) { // 0 ok 1 fail 2 discarded
  cur()=name; alarm(10); int rc=0;
  try { fn(); } catch (Discard&) { rc=2; } catch (Failed& f) { fail_line(f.what); rc=1; }
#ifdef VP_STUB_NATIVE
  catch (Aborted&) { rc=0; }
#endif
  catch (std::exception& e) { fail_line(std::string("unexpected exception ")+e.what()); rc=1; }
  catch (...) { fail_line("unexpected exception"); rc=1; }
  alarm(0); return rc;
}
inline int main_(int argc, char** argv) {
  for (int s: {SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGALRM,SIGILL}) signal(s,on_sig);
  setvbuf(stdout,nullptr,_IOLBF,4096);
  std::string mode = argc>1?argv[1]:"search";
  if (mode=="case") {
    for (int i=3;i<argc;++i) { std::string a=argv[i]; auto e=a.find('='); if (e!=std::string::npos) preset()[a.substr(0,e)]=a.substr(e+1); }
    for (auto& r: regs()) if (std::string(r.name)==argv[2])
      for (int t=0;t<200;++t) { reset(); if (run1(r.fn,r.name)==1) return 1; }
    return 0;
  }
  double secs = argc>2?atof(argv[2]):5; rng().seed(argc>3?atol(argv[3]):1);
  std::string only = argc>4?argv[4]:"";
  time_t t0=time(nullptr); struct timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a);
  long n=0, disc=0, round=0;
  while (true) {
    for (auto& r: regs()) { if (!only.empty() && only!=r.name) continue;
      for (int t=0;t<(round<3?4:20);++t) { reset(); int rc=run1(r.fn,r.name); if (rc==1) return 1; if (rc==2) ++disc; else ++n; } }
    ++round; clock_gettime(CLOCK_MONOTONIC,&b);
    if ((b.tv_sec-a.tv_sec)+(b.tv_nsec-a.tv_nsec)*1e-9>secs && round>=3) break;
    if (regs().empty()) break;
  }
  (void)t0; printf("CASES %ld (discarded %ld, harnesses %zu)\n",n,disc,regs().size()); return 0;
}
}
#ifndef VP_NO_MAIN
int main(int argc, char** argv) { VP_SETUP(argc,argv); int rc=vp::main_(argc,argv); VP_TEARDOWN(); fflush(stdout); _exit(rc); }
#endif
#endif

// equality of results in exact arithmetic (natively: up to rounding)
#ifndef VP_NATIVE
#define CLOSE(a,b) vp_same(a,b)
#else
template<class A,class B> inline bool CLOSE(const A& a, const B& b) { double x=a, y=b; double t=(sizeof(A)==4?1e-3:1e-9); return x==y || x!=x || y!=y || std::isinf(x) || std::isinf(y) || std::fabs(x-y)<=t*(1+std::fabs(x)+std::fabs(y)); }
#endif

// typed helpers --------------------------------------------------------------------------
template<class T> struct vp_t;
template<> struct vp_t<double> { static constexpr int kind=0; static double in(const char* n,long i) { return vp_f64i(n,i); } static bool same(double a,double b) { return vp_same_f64(a,b);} static bool nan(double a) { return vp_isnan_f64(a);} };
template<> struct vp_t<float>  { static constexpr int kind=1; static float in(const char* n,long i) { return vp_f32i(n,i); } static bool same(float a,float b) { return vp_same_f32(a,b);} static bool nan(float a) { return vp_isnan_f32(a);} };
// integers: a range in which sums and products of a few of them are representable
template<> struct vp_t<int>    { static constexpr int kind=2; static int in(const char* n,long i) { return (int)vp_inti(n,i,-20000,20000); } static bool same(int a,int b) { return a==b;} static bool nan(int) { return false; } };
template<> struct vp_t<long>   { static constexpr int kind=3; static long in(const char* n,long i) { return vp_inti(n,i,-1000000000,1000000000); } static bool same(long a,long b) { return a==b;} static bool nan(long) { return false; } };
template<> struct vp_t<bool>   { static constexpr int kind=4; static bool in(const char* n,long i) { return vp_inti(n,i,0,1)!=0; } static bool same(bool a,bool b) { return a==b;} static bool nan(bool) { return false; } };
template<class T> inline T vp_in(const char* n, long i=-1) { return vp_t<T>::in(n,i); }
template<class T, class U> inline bool vp_same(const T& a, const U& b) { static_assert(std::is_same<T,U>::value,"types differ"); return vp_t<T>::same(a,b); }
template<class T> inline T* vp_array(const char* nm, long n) { T* p=(T*) vp_arr(nm,n,vp_t<T>::kind);
#ifdef VP_NATIVE
  if constexpr (std::is_same<T,bool>::value) for (long i=0;i<n;++i) { auto c=(unsigned char*)p+i; *c&=1; }
#endif
  return p; }
#endif
