// Starting and stopping Kokkos from any state, with any arguments.
#define VP_KOKKOS_SESSION
#define VP_NO_OPENMP
#include "vp.hpp"
#include <string>
#include <cstdio>
#include <Kokkos_Core.hpp>
#include <ekat_kokkos_session.hpp>
static bool up_; static int inits_, argc_, fins_, defaults_; static char** argv_; static bool mpi_, quiet_;
namespace Kokkos {
bool is_initialized() { return up_; } bool is_finalized() { return false; }
void initialize(const InitializationSettings& s) { vp_check(!up_,"started once only"); up_=true; ++inits_; ++defaults_; mpi_=s.has_map && s.map.size()==8 && s.map[0]=='m' && s.map[3]=='_' && s.map[7]=='k' && s.threads==-1 && s.device==-1; quiet_=s.has_quiet && s.quiet; }
void initialize(int& argc, char** argv) { vp_check(!up_,"started once only"); up_=true; ++inits_; argc_=argc; argv_=argv; }
void finalize() { vp_check(up_,"only what was started is stopped"); up_=false; ++fins_; }
}
#include <ekat_kokkos_session.cpp>
// each argument is one of these; the last four contain --kokkos
static const char* const WORDS[8]={"-","-k","--kokko","-kokkos --kokk","--kokkos","--kokkos-threads=2","x--kokkos-y","---kokkos"};
static char text_[4][24]; static char* args_[5];
static void put(int k, const char* w) { int i=0; for (;w[i];++i) text_[k][i]=w[i]; text_[k][i]=0; args_[k]=text_[k]; }
static void state(bool up) { up_=up; inits_=argc_=fins_=defaults_=0; argv_=nullptr; mpi_=quiet_=false; }
static void start(int n, int a, int b, int c, bool print, bool up) { put(0,WORDS[a]); put(1,WORDS[b]); put(2,WORDS[c]); args_[n]=nullptr; const int w[3]={a,b,c}; bool own=false; for (int k=0;k<n;++k) own=own||w[k]>=4; state(up);
  ekat::initialize_kokkos_session(n,args_,print);
  vp_check(up_,"Kokkos is running"); vp_check(inits_==(up?0:1),"it is started exactly when it was not running"); vp_check(fins_==0,"and not stopped");
  if (!up) { vp_check(defaults_==(own?0:1),"with the settings of the library exactly when no argument is for Kokkos"); if (own) vp_check(argc_==n && argv_==args_,"otherwise with the arguments given"); else vp_check(mpi_ && quiet_,"devices by MPI rank, warnings off"); }
  int j=0; for (const char* p=WORDS[a];p[j];++j) vp_check(text_[0][j]==p[j],"the arguments are left alone");
  const int again=inits_; ekat::initialize_kokkos_session(n,args_,!print); vp_check(inits_==again && up_,"started once only");
  ekat::finalize_kokkos_session(); vp_check(!up_ && fins_==1,"stopped"); ekat::finalize_kokkos_session(); vp_check(fins_==1,"stopped once only"); }
VP_HARNESS(none) { for (int v=0;v<4;++v) start(0,0,0,0,(v&1)!=0,(v&2)!=0); }
VP_HARNESS(one) { for (int a=0;a<8;++a) for (int v=0;v<4;++v) start(1,a,0,0,(v&1)!=0,(v&2)!=0); }
VP_HARNESS(two) { for (int a=0;a<8;++a) for (int b=0;b<8;++b) start(2,a,b,0,(a&1)!=0,false); }
VP_HARNESS(three) { for (int a=0;a<8;a+=3) for (int b=0;b<8;b+=2) for (int c=0;c<8;++c) start(3,a,b,c,(b&1)!=0,((a+b+c)%5)==0); }
VP_HARNESS(no_args) { for (int v=0;v<4;++v) { const bool up=(v&2)!=0; state(up); ekat::initialize_kokkos_session((v&1)!=0); vp_check(up_ && inits_==(up?0:1) && fins_==0,"it is started exactly when it was not running"); if (!up) vp_check(defaults_==1 && mpi_ && quiet_,"with the settings of the library"); } }
VP_HARNESS(stop) { for (int v=0;v<2;++v) { const bool up=v!=0; state(up); ekat::finalize_kokkos_session(); vp_check(!up_ && fins_==(up?1:0) && inits_==0,"stopped exactly when it was running"); } }
VP_HARNESS(any_state) { const bool up=vp_int("up",0,1)!=0; state(up); put(0,WORDS[1]); put(1,WORDS[5]); ekat::initialize_kokkos_session(2,args_,false); vp_check(up_ && inits_==(up?0:1),"it is started exactly when it was not running"); ekat::finalize_kokkos_session(); vp_check(!up_ && fins_==1,"stopped"); }
