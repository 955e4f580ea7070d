from run import *
import stdmodel
NATIVE = dict(KSTUB, flags=KSTUB['flags'] + ['-DNDEBUG'])
def setup(ex, n):
    def st(c): ex.cur_thread = c.args[0]; return UNDEF
    ex.add_contract('vp_set_thread', st)
    def get(c):
        t = getattr(ex, 'cur_thread', None)
        if t is None: raise Undecided('thread number read before it is set')
        return t
    ex.add_contract('omp_get_thread_num', get)
    def hv(c):   # arbitrary contents of the array
        r, o = ex.single(c.args[0])
        for k in [k for k in c.st.arrs if k[0] == r.id]: c.st.arrs[k] = z3.FreshConst(c.st.arrs[k].sort(), 'havoc')
        return c.args[0]
    ex.add_contract('vp_havoc_arr', hv)
def setupd(ex, n):
    setup(ex, n)
    ex.add_contract("strcpy", strcpy)
    ex.add_contract("re:.*get_name_idx.*", lambda c: name_idx(ex, c))
def strcpy(c):   # of a string literal
    n = stdmodel.strlen(CallCtx(c.ex, 'strlen', [c.args[1]], c.st, c.g, c.fr, ('i', 64), [], c.dbg))
    if not isinstance(n, int): raise Undecided('strcpy of a symbolic string')
    for i in range(n + 1): c.ex.store(c.g, c.st, ('i', 8), c.ex.padd(c.args[0], i), c.ex.load(c.g, c.st, ('i', 8), c.ex.padd(c.args[1], i), c.fr, c.dbg), c.fr, c.dbg)
    return c.args[0]
def name_idx(ex, c):
    i = ex.fresh_int("name_idx"); ex.assume(c.g, and_(cmp("ge", i, 0), cmp("lt", i, 256))); return i
def tasks(ctx): return harness_tasks(ctx, setup=setup, defs=("NDEBUG",), flags=STRINGS) + harness_tasks(ctx, setup=setupd, flags=STRINGS, prefix="debug:", only="^((take|take_frame|release|many2|contig2|relmany3|relmacro|geometry|setup|wsmreset|dbgreset)_i)$")
TRUSTED = ['Kokkos::View, TeamPolicy, parallel_for, single, TeamVectorRange and barriers: assumed contracts in stubs/ (a parallel loop is its independent iterations, single runs once, the team is run as one thread)', 'debug variant: get_name_idx (lookup in the table of names) by the assumed contract "some entry of the table"']
ASSUMPTIONS = ['up to 2^10 workspaces, blocks per workspace and entries per block; the byte count of the memory fits an int', 'states of the pool: any free list without repetition over valid blocks, as every operation preserves it; blocks taken contiguously are next to each other at the head of the list, as the interface of these functions requires', 'debug builds: reset, take_many_and_reset and take_macro_block are verified only as release builds compile them']
CONTRACTED = ['ekat::WorkspaceManager (constructors, setup, reset_internals, get_workspace, get_total_bytes_needed, init_slot_metadata, get_space_in_slot, get_next, get_index, set_next_and_get_index)', 'ekat::WorkspaceManager::Workspace (take, take_many, take_many_refs, take_many_contiguous_unsafe, take_macro_block, take_many_and_reset, release, release_many_contiguous, release_macro_block, reset, change_num_used, change_indv_meta)']
