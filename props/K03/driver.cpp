// Teams that run at the same time use different workspace slots, all of them valid
#include "vp.hpp"
#include <cassert>
#include <string>
#include <stdexcept>
#include <ekat_team_policy_utils.hpp>
using namespace ekat;
using OMP=Kokkos::OpenMP; using SER=Kokkos::Serial;
#ifndef VP_NATIVE
extern "C" int vp_set_thread(long t);
#else
inline void vp_set_thread(long t) { vp::vals()["omp_thread"]=std::to_string(t); }
#endif
// Kokkos' OpenMP back end runs a team policy with threads [r*A, r*A+ts) as team r, where A = P/(P/ts); team r exists for r < min(P/ts, league)
template<class T> void openmp() {
  const int P=vp_concurrency(); const int ts=(int)vp_int("team_size",1,1<<20), ls=(int)vp_int("league",1,1<<30); vp_assume(ts<=P);
  Kokkos::TeamPolicy<OMP> pol(ls,ts); TeamUtils<T,OMP> tu(pol);
  const long L=P/ts, A=P/L, run=L<ls?L:ls;
  vp_check(tu.get_num_concurrent_teams()==run,"number of concurrent teams");
  vp_check(tu.get_num_ws_slots()==run,"one slot per concurrent team"); vp_check(tu.get_max_concurrent_threads()==P,"number of threads");
  vp_check((long)tu.get_num_concurrent_teams()*ts<=P,"the concurrent teams fit in the threads");
  const long r=vp_int("team",0,1<<20), q=vp_int("member",0,1<<20); vp_assume(r<run); vp_assume(q<ts);
  const int t=(int)(r*A+q); vp_check(t<P,"thread exists");
  vp_set_thread(t); Kokkos::TeamMember m{(int)vp_int("rank",0,1<<30),ls,(int)q,ts};
  const int idx=tu.get_workspace_idx(m);
  vp_check(idx>=0 && idx<tu.get_num_ws_slots(),"slot is valid");
  vp_check(idx==r,"slot belongs to the concurrent team: same for its members, different for different teams");
  tu.release_workspace_idx(m,idx); vp_set_thread(t); vp_check(tu.get_workspace_idx(m)==r,"slot stays the same");
}
VP_HARNESS(openmp_d) { openmp<double>(); } VP_HARNESS(openmp_f) { openmp<float>(); }
template<class T> void serial() {
  const int ls=(int)vp_int("league",1,1<<30); Kokkos::TeamPolicy<SER> pol(ls,1); TeamUtils<T,SER> tu(pol);
  vp_check(tu.get_num_concurrent_teams()==1 && tu.get_num_ws_slots()==1 && tu.get_max_concurrent_threads()==1,"serial: one team at a time");
  Kokkos::TeamMember m{0,ls,0,1}; vp_check(tu.get_workspace_idx(m)==0,"serial: the only slot");
}
VP_HARNESS(serial_d) { serial<double>(); }
VP_HARNESS(policy) {
  const int ni=(int)vp_int("ni",0,1<<30), nk=(int)vp_int("nk",0,1<<30), ts=(int)vp_int("team_size",1,1<<20);
  using F=TeamPolicyFactory<OMP>; 
  auto a=F::get_default_team_policy(ni,nk); vp_check(a.league_size()==ni && a.team_size()==1,"default policy: one team per column");
  auto b=F::get_team_policy_force_team_size(ni,ts); vp_check(b.league_size()==ni && b.team_size()==ts,"forced team size");
  auto c=F::get_thread_range_parallel_scan_team_policy(ni,nk); vp_check(c.league_size()==ni && c.team_size()>=1,"scan policy");
}
