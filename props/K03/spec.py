from run import *
NATIVE = KSTUB
def setup(ex, n):
    def st(c): ex.cur_thread = c.args[0]; return UNDEF
    ex.add_contract('vp_set_thread', st)
    def get(c):
        t = getattr(ex, 'cur_thread', None)
        if t is None: raise Undecided('thread number read before it is set')
        return t
    ex.add_contract('omp_get_thread_num', get)
def tasks(ctx): return harness_tasks(ctx, setup=setup, flags=STRINGS) + harness_tasks(ctx, setup=setup, defs=('NDEBUG',), prefix='ndebug:')
TRUSTED = ['Kokkos OpenMP back end: team r of a policy runs on threads [r*A, r*A+team_size) with A = P/(P/team_size) of the pool of P threads, r < min(P/team_size, league size) (HostThreadTeamData::organize_team)']
ASSUMPTIONS = ['1 <= team size <= number of threads, league size >= 1 (Kokkos itself refuses larger teams)', 'up to 2^20 threads']
CONTRACTED = ['ekat::TeamUtilsCommonBase (constructor, get_num_concurrent_teams, get_num_ws_slots, get_max_concurrent_threads)', 'ekat::TeamUtils<OpenMP>::get_workspace_idx', 'ekat::TeamUtils<Serial>', 'ekat::TeamPolicyFactory']
