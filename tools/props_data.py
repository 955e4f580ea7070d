IN, HI, CF, SC = 'inputs', 'histories', 'configurations', 'schedules'

prop('C01', 'Rational constants are exact and canonical',
 'A rational constant built from n/d equals n/d exactly, is stored in lowest terms with a positive denominator, and a zero denominator is rejected with an exception. Sum, difference, product, quotient, negation, integer powers and (in)equality give the exact result of rational arithmetic, again in canonical form, whenever the intermediate products fit in 64 bits. Division by zero and zero to a non-positive power throw.',
 [IN], 'all 64-bit numerators, denominators and exponents (either sign) whose cross products fit in 64 bits',
 'The tests use a dozen small, mostly positive constants at compile time; signs, gcds and powers are unbounded.',
 ['src/core/ekat_rational_constant.hpp'], [('construction', 'RationalConstant::fix_num / fix_den / gcd'), ('arithmetic', 'operator+,-,*,/,==,!=,pow')],
 claim=True, note='All integer inputs in the stated range, every recursion of gcd and pow by induction on a measure. Trusts the compiler front end and the generator; lemmas about gcd and powers are proved in Lean in the same run.')
prop('P01', 'Pack arithmetic acts on each lane exactly like the scalar expression',
 'For every pack size and scalar type, construction, conversion, assignment, +, -, *, /, unary minus, the compound assignments (pack or scalar operand, mixed scalar types), element-wise min/max, square, cube, pow, abs and the mathematical functions, update and add leave in lane i exactly (bit for bit) what the same scalar expression gives on lane i of the operands; other lanes, and operands that are not assigned to, do not change, also when a scalar operand is one of the lanes of the pack being assigned.',
 [IN], 'all lane values (NaN, infinities and signed zeros included) and all masks, for pack sizes 1..16 and double/float/int/long lanes',
 'The unit tests use a few finite values in double; lanes are independent inputs, and mixed-type and aliasing operand combinations are not sampled.',
 ['src/pack/ekat_pack.hpp', 'src/pack/ekat_pack_math.hpp'], [('generated operators', 'ekat_pack_gen_* macros'), ('update/add', 'Pack::update, Pack::add')],
 claim=True, note='All lane values; floating-point operations are uninterpreted, so equality is bit-for-bit. Pack sizes and scalar types are the instantiated ones (1,2,4,8,16; double,float,int,long). Kokkos math functions are assumed pure.')
prop('P02', 'Masks and masked selection touch exactly the selected lanes',
 'Comparisons of packs and scalars (==, !=, <, <=, >, >=, isnan) give the mask whose lane i is the scalar comparison of lane i; any/all/none, &&, ||, !, == and ekat_masked_loop agree with the per-lane booleans. Pack::set, the masked update and add, the masked Pack constructors and where(mask,x) with =, +=, -=, *=, /= change lane i exactly when mask lane i is set, to the stated value computed from the values before the call, and leave all other lanes alone; where(...).max/min and scalar op= where(...) combine exactly the selected lanes.',
 [IN], 'all lane values and all masks, for pack sizes 1..16, and the scalar where',
 'A mask has 2^n values and lanes are arbitrary; tests sample one or two masks.',
 ['src/pack/ekat_pack.hpp', 'src/pack/ekat_pack_where.hpp', 'src/kokkos/ekat_where.hpp', 'src/pack/ekat_pack_math.hpp'],
 [('masks', 'ekat::Mask'), ('masked set', 'Pack::set'), ('where', 'where_expression<Pack>, where_expression<T>')],
 claim=True, note='All lane values and masks; floating-point operations uninterpreted (bit-for-bit). Instantiated sizes and scalar types as for P01.')
prop('P03', 'Pack reductions and lane shifts are exact and ordered',
 'The serialized (BFB) pack sum is s+p[0]+p[1]+...+p[n-1] with the additions in exactly this order; the non-serialized sum adds every lane exactly once. min/max over lanes, masked or not, return the extremum of the selected lanes and the initial value. shift_right(a,p) is (last lane of a, p[0..n-2]), shift_left(a,p) is (p[1..n-1], first lane of a), a scalar standing for itself; range(s) has s+i in lane i.',
 [IN], 'all lane values and masks, for pack sizes 1..16 and double/float/int lanes',
 'Rounding order and lane movement must be right for every value; tests use small integers, for which every order gives the same sum.',
 ['src/pack/ekat_pack.hpp', 'src/pack/ekat_pack_math.hpp'], [('reductions', 'reduce_sum, min, max'), ('shifts', 'shift_left, shift_right, range')],
 claim=True, note='All lane values; order of floating-point operations is part of the proof for serialized sums, exact real arithmetic for the others.')
prop('P04', 'Pack index arithmetic and pack views cover an array exactly',
 'For every array length, num_packs (and npack) is the least number of packs that holds it, padding completes the last pack, vec_end is the number of array entries in each pack, and pack_idx/vec_idx and array_idx are mutually inverse. scalarize(v) and repack<N>(v) are views of the same memory: element (..,j) of the scalar view is lane j%N of pack (..,j/N), with matching extents and constness; repack refuses a last extent that the pack size does not divide.',
 [IN], 'all array lengths up to INT_MAX-N, all view extents and indices, pack sizes 1..32, view ranks 1-4',
 'Index identities hold for every length and index or not at all; tests use one or two lengths, and the view functions are not run in this build.',
 ['src/pack/ekat_pack_utils.hpp', 'src/pack/ekat_pack_kokkos.hpp', 'src/pack/ekat_pack.hpp'], [('index arithmetic', 'PackInfo, npack'), ('views', 'scalarize, repack, ScalarizedDataType')],
 claim=True, note='All lengths/indices (extents up to 4096 per dimension). Kokkos::View is an assumed contract (stubs/). Pack sizes instantiated: 1..32; scalarize ranks 1-4, repack ranks 1-3.')
prop('P05', 'Pack-index gathers and adjacent differences read the right elements',
 'index(v,i,j,...) returns in lane l exactly v(i[l],j[l],...) for views of rank 1 to 5; index_and_shift<S>(v,i,x,y) sets x to index(v,i) in every lane, and y to v(i[l]+S) where that is in range (in debug builds the invalid value elsewhere). adj_diff is v[j+1]-v[j] (forward) or v[j]-v[j-1] (backward) over the scalar index space, across pack boundaries, a value outside of the range counting as 0.',
 [IN], 'all views, all in-range pack indices (repeated and unordered ones included), shifts of either sign, pack sizes 1..16',
 'Every lane has its own index, and boundaries between packs and at the ends matter; the tests of these functions are not part of this build.',
 ['src/pack/ekat_pack_kokkos.hpp'], [('gathers', 'index, index_and_shift'), ('differences', 'adj_diff')],
 claim=True, note='Gathers bit-for-bit, differences in exact arithmetic. Kokkos::View is an assumed contract. Both debug and NDEBUG variants of index_and_shift.')
prop('K01', 'Array transposes move every element to its transposed position',
 'transpose(sv,dv,ni,nk[,nj],direction) copies every element exactly once: c2f puts the element (i,k[,j]) stored with i slowest at the position with i fastest, f2c does the reverse, so one is the inverse of the other; the source is not changed and nothing outside the ni*nk[*nj] elements of the destination is written. The run-time direction argument selects the same function as the template argument.',
 [IN], 'all extents (including 0, 1 and unequal ones) and every element',
 'An index formula with two extents exchanged is right for square arrays and for some elements of every array; tests use one fixed shape.',
 ['src/kokkos/ekat_math_utils.hpp'], [('transposes', 'transpose 2-d, 3-d, both directions')],
 claim=True, note='All extents whose product is an int (3-d: 1290 per dimension), all elements; loops by the independent-iterations rule (no unrolling), non-overlap of source and destination assumed.')
prop('P06', 'Host/device transfers of packed and scalar views copy every element to its place',
 'host_to_device fills views[n] of just enough packs so that scalar j of the innermost extent is lane j%N of pack j/N (1-d, 2-d, 3-d; per-array or uniform sizes; packed or plain scalar views), reading the host array in C order, or in Fortran order when do_transpose is set; device_to_host writes exactly those elements back, so the round trip reproduces the host array. Each array uses its own sizes; nothing outside the host array or view is accessed.',
 [IN], 'all extents (0 and extents that the pack size does not divide included), all values, one or two arrays per call with different sizes',
 'Padding, the two storage orders and the reuse of one transposition buffer for arrays of different sizes interact; the tests of these functions are not part of this build.',
 ['src/pack/ekat_pack_kokkos.hpp', 'src/kokkos/ekat_math_utils.hpp'], [('to device', 'host_to_device, host_to_device_impl'), ('to host', 'device_to_host')],
 claim=True, note='Element loops by the independent-iterations rule over symbolic extents; transpose by its contract (K01); lane loop unrolled for the instantiated pack sizes 1,2,4,8; one or two arrays per call. Kokkos::View/deep_copy assumed (stubs/), std::vector is the real code.')

prop('K06', 'Subviews alias exactly the selected entries of the original view',
 'subview(v,i0,..) (leading indices), subview_1(v,i1) (second index) and the multi-slice subview(v,{b,e},dim) return a view of the same memory whose entry at the remaining indices is the entry of v at the fixed and remaining indices (shifted by b along dim), with the matching extents, element type and rank; also when v is itself a slice whose leading stride is not the product of its extents.',
 [IN], 'all extents, indices and slice bounds, ranks 1 to 6, every sliced dimension',
 'Offsets and strides must be right for every extent and for slices of slices; tests use one fixed shape.',
 ['src/kokkos/ekat_subview_utils.hpp'], [('leading indices', 'ekat::subview'), ('second index', 'ekat::subview_1'), ('slices', 'ekat::subview(v,pair,dim)')],
 claim=True, note='All extents (up to 128, 16 for ranks above 3) and indices, ranks 1-6. The headers of the installed Kokkos are executed, not assumed.')
prop('K07', 'A broadcast view reads the original entry at the kept indices',
 'ViewBroadcast (and broadcast) built from a view and a list of extents has the listed extent in each positive entry and the extents of the original view, in order, in the others; entry (i0,..) is the memory of the original entry at the indices of the kept dimensions, whatever the other indices. A request in which the number of open dimensions is not the rank of the original view, or the list does not have one entry per dimension, throws.',
 [IN, CF], 'all extents and indices, every placement of the kept dimensions, ranks 1 to 8',
 'The placement of the kept dimensions is combinatorial and the accessor is repeated for eight ranks; the tests of this class are not part of this build.',
 ['src/kokkos/ekat_view_broadcast.hpp'], [('construction', 'ViewBroadcast::setup'), ('access', 'ViewBroadcast::operator(), extent')],
 claim=True, note='All extents/indices, every placement, 28 rank pairs up to 8. Kokkos::View is an assumed contract (the header needs Kokkos 4); original view contiguous LayoutRight.')

prop('K03', 'Teams that run at the same time get different workspaces',
 'TeamUtils gives each thread a workspace index below get_num_ws_slots(); threads of one team get the same index and threads of different teams that can run at the same time get different ones, for every team size and league size. get_num_concurrent_teams is the number of teams that can run at once, never more than the league needs. TeamPolicyFactory returns policies with the requested number of teams and a valid team size.',
 [IN, SC], 'every number of threads, team size and league size, every pair of threads',
 'Whether two teams share a workspace depends on thread count, team size and league size together; tests run with the few thread counts of the machine.',
 ['src/kokkos/ekat_team_policy_utils.hpp'], [('team utilities', 'TeamUtilsCommonBase, TeamUtils::get_workspace_idx'), ('policies', 'TeamPolicyFactory')],
 claim=True, note='Integer proofs for all thread/team/league sizes up to 2^20. The assignment of threads to teams by the Kokkos OpenMP back end is assumed. Host back ends (OpenMP, Serial); the GPU variant is not part of this build.')
prop('K04', 'The workspace pool never hands out a block in use nor loses a free one',
 'A WorkspaceManager keeps, in every workspace, a list of free blocks. take, take_many, take_many_refs, take_many_contiguous_unsafe and take_macro_block return the first blocks of that list (valid, of the requested size, disjoint from each other, from blocks of other workspaces and from all metadata) and leave exactly the rest of the list; release, release_many_contiguous and release_macro_block put the blocks in front of the list, which otherwise stays; reset, take_many_and_reset and reset_internals make every (other) block free. Contents of blocks in use and other workspaces are not changed. get_total_bytes_needed is the memory the manager uses.',
 [HI, IN], 'every reachable state of the pool (by induction over the operations), every size, number of blocks and workspace',
 'After a long history the free list is in arbitrary order, which is when following an index instead of a link goes wrong; tests start from a fresh list.',
 ['src/kokkos/ekat_workspace.hpp', 'src/kokkos/ekat_workspace_impl.hpp'], [('taking', 'Workspace::take*'), ('releasing', 'Workspace::release*'), ('reset', 'Workspace::reset, WorkspaceManager::reset_internals'), ('memory', 'WorkspaceManager::setup, get_total_bytes_needed')],
 claim=True, note='Inductive invariant over the free list, each operation verified from an arbitrary valid state; int and Pack<int,4> memory, also blocks taken as another type. Kokkos constructs are assumed contracts (stubs/), a team is run as one thread.')

prop('E01', 'An expression evaluates entry by entry like the scalar formula it spells',
 'An expression built from views with +, -, *, /, unary minus, comparisons, && and ||, if_then_else, pow, min, max, sqrt, exp, log, sin and cos (operands in any mix of expressions and scalars, of the same or different arithmetic types) has the rank and extents of its view operands, and its value at an index is bit for bit the scalar formula on the entries of the operands at that index, in the common type; also when the expression outlives the objects it was built from. evaluate stores this value in every entry of the result (ranks 0 to 8), changes nothing else, and throws when the extents of the result differ.',
 [IN, 'programs'], 'all values, indices and extents, ranks 0 to 8, every operator with operands on either side',
 'The tests of this package are not part of this build, and sample a few random values with tolerances, for one type and four ranks.',
 ['src/expression/ekat_expression_eval.hpp', 'src/expression/ekat_expression_binary_op.hpp', 'src/expression/ekat_expression_binary_predicate.hpp', 'src/expression/ekat_expression_conditional.hpp', 'src/expression/ekat_expression_math.hpp', 'src/expression/ekat_expression_view.hpp'],
 [('evaluation', 'evaluate'), ('operators', 'BinaryExpression, NegateExpression, BinaryPredicateExpression, ConditionalExpression'), ('functions', 'EKAT_BINARY_MATH_EXPRESSION, EKAT_UNARY_MATH_EXPRESSION')],
 claim=True, note='Bit-for-bit over uninterpreted floating point; every node type from arbitrary operands (deeper trees by composition: an operand is used only through eval/rank/extent). double, float, int, long, bool entries. Kokkos::View/parallel_for are assumed contracts.')
prop('K02', 'upper_bound finds the first entry greater than the value',
 'For an ascending range and a value, ekat::upper_bound returns the position in the range such that every entry before it is at most the value and every entry from it on is greater; the end for an empty range or when no entry is greater. It reads only the range, changes nothing and ends. This holds for the loop of device builds and for the function of host builds.',
 [IN], 'every length up to 2^31-1, every ascending content (also repeated entries), every value, int, long, float, double',
 'Off-by-one errors of a binary search show only at particular lengths and with repeated values; the test of the tree runs only the host variant, which is not the loop written here.',
 ['src/kokkos/ekat_upper_bound.hpp'], [('search', 'ekat::upper_bound')],
 claim=True, note='Loop invariant (entries before are at most the value, entries after the rest are greater) and termination measure, proved for EKAT_ENABLE_GPU and for std::upper_bound of the installed library. NaN excluded.')
prop('A04', 'A reduction combines every entry of the range exactly once',
 'view_reduction over [begin,end) is the sum of the entries begin..end-1 of the input and of no other, whether the input provides scalars or packs (range in scalar indices: lanes outside the range, such as padding, never enter), for any begin<=end, also inside one pack; parallel_reduce combines every step of the range once. The serialized variants (Serialize=true, the default of bit-for-bit builds) do so strictly in order from the identity, hence bit for bit like the scalar loop.',
 [IN, CF], 'every range, every content, pack lengths 1,2,4,8,16, float and double',
 'Which lanes of the first and last pack belong to the range depends on begin, end and the pack length together; tests use few ranges.',
 ['src/algorithm/ekat_reduction_utils.hpp'], [('reductions', 'impl::parallel_reduce, impl::view_reduction'), ('interface', 'ReductionUtils')],
 claim=True, note='Serialized: bit-for-bit over uninterpreted floating point. Not serialized: real arithmetic (the order is free), inductive invariant over the running sum. Kokkos::parallel_reduce is an assumed contract.')
prop('A03', 'Interpolated values lie on the line of the segment of their coordinate',
 'After setup with coordinates x1 (strictly ascending, two or more) and x2, LinInterp::lin_interp gives for every target coordinate the value of the straight line through the two given points whose segment contains the coordinate (the first or last segment, extended, outside of the given range), so at a given coordinate the value given there. The numbers of levels need not be multiples of the pack length: padding entries have no effect. The column is the rank of the team or the one named; setting up one column keeps the others.',
 [IN, CF], 'every number of levels, every coordinates and values, pack lengths 1,2,4,8, every column',
 'Which segment is used depends on where coordinates coincide or lie outside and on the padding of the last pack; the test of this class is not part of this build and uses random interior points.',
 ['src/algorithm/ekat_lin_interp.hpp', 'src/algorithm/ekat_lin_interp_impl.hpp'], [('index map', 'LinInterp::setup, setup_impl'), ('evaluation', 'LinInterp::lin_interp, lin_interp_impl')],
 claim=True, note='Real arithmetic; upper_bound by its contract (K02). Invariant of the index map (every entry is a level) kept by every store. Kokkos is an assumed contract.')
prop('A01', 'The Thomas solvers return the solution of every tridiagonal system',
 'For a tridiagonal matrix whose pivots do not vanish (for example a diagonally dominant one), thomas(team,...), the three serial thomas(...) forms and bfb(...) leave in X, for every right hand side, values that satisfy every equation dl(i) x(i-1) + d(i) x(i) + du(i) x(i+1) = b(i) (the first without dl(0), the last without du(n-1)), whatever the number of rows (one included), with one matrix for all right hand sides or one each, on scalars or packs. A thread of a team solves exactly its columns and leaves those of the others alone. Nothing outside the arrays is touched.',
 [IN, SC], 'every number of rows, every matrix with non-vanishing pivots, every right hand side; one to four numbers per row, float and double, scalars and packs',
 'A wrong row or coefficient can leave small systems right; tests use a few sizes, random diagonally dominant matrices and a tolerance.',
 ['src/algorithm/ekat_tridiag.hpp'], [('factorization and substitution', 'impl::thomas_factorize, thomas_solve, thomas_a1x1, thomas_a1xm, thomas_amxm, bfb_thomas_factorize, bfb_thomas_solve'), ('interface', 'tridiag::thomas, tridiag::bfb')],
 claim=True, note='Real arithmetic. Loop invariants give the exact contents of d, dl, X after any number of steps; the equations follow by polynomial identity. The number of rows is unbounded, the number of columns (1-4) is instantiated. Cyclic reduction (cr) is A02.')
prop('A02', 'Cyclic reduction returns the solution of every tridiagonal system',
 'For a tridiagonal matrix for which no divisor vanishes (for example a diagonally dominant one), cr(team,...) leaves in X, for every right hand side, the solution of the system: at every reduction level the remaining equations keep the solution they had, and going up each row gets the value that satisfies its equation. This holds for every number of rows (one, two, powers of two or not), with one matrix for one or many right hand sides or one matrix each. With one matrix each a thread solves its columns and leaves those of the others alone. Nothing outside the arrays is touched and the reduction ends.',
 [IN, SC], 'every number of rows up to 2^28 numbers, every matrix whose divisors do not vanish, every right hand side; one to three columns',
 'Levels and neighbours at the border depend on the number of rows (its bits); tests use a few sizes up to 129 rows and a tolerance.',
 ['src/algorithm/ekat_tridiag.hpp'], [('cyclic reduction', 'tridiag::cr (three overloads)')],
 claim=True, note='Real arithmetic. Invariant for an arbitrary row over all levels (equation at the current distance, or at the distance at which the row was left), unbounded in rows and levels; divisibility and powers of two by theorems checked by Lean. Several threads that share the rows of one matrix are not covered (one thread per team there), so the placement of team barriers in cr is not checked.')
prop('M01', 'Comm performs exactly the MPI operation asked for, on its communicator',
 'A Comm holds the communicator it was given (never a null one), with that communicator\'s size and rank; reset_mpi_comm and split replace or create both together, split keeping the order of ranks within a color, and a refused reset leaves the Comm as it was. broadcast, scan, all_reduce, all_gather (with separate buffers or in place) and barrier each perform exactly one MPI operation of that kind over that communicator, on the given data, count, root and operation, with the MPI type that names the type of the data, after asking whether MPI is initialized. Rank 0 is the root, and under the root logging policy the only rank that logs. In a build without MPI the results are those of a single rank.',
 [IN, HI, CF], 'every communicator, size, rank, count, root, color, operation handle; char, short, int, long, long long, float, double, bool; builds with and without MPI',
 'A wrong type, communicator or rank shows only with several ranks, after a split, or for element types the tests do not use.',
 ['src/core/ekat_comm.hpp', 'src/core/ekat_comm.cpp', 'src/core/ekat_comm_serial.cpp', 'src/logging/ekat_log_mpi_policy.hpp'], [('state', 'Comm::Comm, reset_mpi_comm, split'), ('operations', 'Comm::broadcast, scan, all_reduce, all_gather, barrier'), ('types', 'get_mpi_type'), ('logging', 'LogAllRanks, LogRootRank')],
 claim=True, note='The MPI library is an assumed contract (its calls are recorded, their results arbitrary); that MPI does what the standard says of each call is assumed.')
prop('C02', 'Scaling factors follow the algebra of the numbers they stand for',
 'A scaling factor base^exp with a positive rational base and a rational exponent stands for a positive real number. Products, quotients (with scaling factors or rationals on either side, and *=), powers with rational or integer exponents and square roots stand for the product, quotient, power and root of those numbers, and == and != decide whether the numbers are equal, whatever the representation (4^(1/2) == 2), whenever the integer products formed fit in 64 bits. Construction keeps base and exponent, makes x^0 the number 1, and throws exactly for 0^0 and even roots of negative numbers. The SI prefixes are the powers of ten they name. Operands are not changed; base and exponent stay in canonical form.',
 [IN], 'every positive rational base and rational exponent whose products fit in 64 bits; every base for construction',
 'Which rule for powers applies depends on coincidences of bases and exponents; the tests check a few constants at compile time.',
 ['src/core/ekat_scaling_factor.hpp'], [('construction', 'ScalingFactor::ScalingFactor, check_and_adjust'), ('algebra', 'operator*, /, ==, !=, *=, pow, sqrt'), ('prefixes', 'ekat::prefixes')],
 claim=True, note='Rational constants by their contract (C01); laws of real powers by theorems checked by Lean in the same run. Zero and negative bases are outside the algebra part (see findings). Text form is not part of it.')
prop('C03', 'Units: dimensions, scalings, prefixes and the named SI units',
 'A unit is a scaling (a positive number) and seven rational exponents (length, time, mass, temperature, current, amount, luminous intensity). For every pair of units the product adds and the quotient subtracts each exponent, and the scalings multiply or divide; a power with a rational exponent (and sqrt) multiplies each exponent and raises the scaling; numbers, scaling factors and SI prefixes on either side change the scaling alone (or invert the unit when they are divided by it), whether or not the unit has a symbol of its own. == and != compare scalings and exponents and never names; is_dimensionless and is_scaled say exactly that; construction and rename keep scaling and exponents; operands are not changed. The named units have the dimensions and factors of the SI (J = kg m2 s-2, T = kg s-2 A-1, h = 3600 s, ...).',
 [IN], 'every unit with a positive scaling whose integer products fit in 64 bits; every named unit',
 'Seven exponents, the scaling and two construction paths (symbol or compound) combine freely; the tests use a few mechanical units.',
 ['src/core/ekat_units.hpp'], [('units', 'Units::Units, rename, is_dimensionless, is_scaled'), ('algebra', 'operator*, /, ==, != on Units, ScalingFactor, RationalConstant; pow, sqrt'), ('named units', 'ekat::units constants')],
 claim=True, note='Rational constants and scaling factors by their contracts (C01, C02). The text of a unit is not part of it.')
prop('F01', 'The factory creates with the creator registered last for the key',
 'For every register (any keys, any creators) and every key: register_product stores the creator under its key and returns true exactly when the key was not registered or replacement was asked for, and otherwise changes nothing and returns false; create throws exactly when the key is not registered, and otherwise calls the creator stored under that key, once, with the arguments given, and returns its result; has_product says exactly whether the key is registered; clean_up leaves an empty register that can be filled again. No operation touches the entry of another key, calls a creator it should not, or changes the size of the register by more than it should; there is one factory per product type, and factories of different products share nothing.',
 [HI], 'every history: each operation from an arbitrary register, observed at three arbitrary distinct keys',
 'The register is filled by static registration in arbitrary order and replaced at run time; the tests register two or three products.',
 ['src/core/ekat_factory.hpp'], [('factory', 'Factory::register_product, create, has_product, clean_up, register_size, instance')],
 claim=True, note='std::map by contract (stubs/map/map): three arbitrary keys, the others counted.')
prop('R01', 'Checks fire exactly when their condition is false',
 'EKAT_REQUIRE (with or without text and exception type), EKAT_REQUIRE_MSG and EKAT_ERROR_MSG throw exactly when the condition, any expression, is false, evaluate it exactly once, put the text together only on failure, and are one statement. The exception is of the type asked for when it can be made from a text or from nothing, otherwise std::runtime_error. While any number of exceptions is unwinding the stack a failing check returns instead of throwing, however often it fails, and checks throw again afterwards. EKAT_ASSERT does the same in debug builds and does not look at the condition in release builds. The kernel forms abort exactly when the condition is false, and evaluate it once.',
 [IN, HI], 'every condition and expression shape of the entries; five exception types; any number of exceptions in flight, in sequence',
 'Every other guarantee of the library is enforced through these macros; the tests use one or two conditions and a single unwinding.',
 ['src/core/ekat_assert.hpp', 'src/kokkos/ekat_kernel_assert.hpp'], [('host checks', 'EKAT_REQUIRE*, EKAT_ASSERT*, ekat::throw_exception'), ('kernel checks', 'EKAT_KERNEL_REQUIRE*, EKAT_KERNEL_ASSERT*')],
 claim=True, note='std::uncaught_exceptions and Kokkos::abort by contract; texts are dropped.')
prop('X01', 'Floating-point traps: exactly the exceptions of the mask change',
 'For every state of the floating-point environment and every mask: enable_fpes makes the exceptions of the mask trap, disable_fpes and disable_all_fpes make them not trap; traps and raised flags of the exceptions outside the mask are left alone; a trap is switched on only after its raised flag has been cleared, so that nothing computed earlier fires; get_enabled_fpes reports exactly the traps that are on and changes nothing.',
 [IN, HI], 'every mask over the exceptions of the platform (and bits outside it), every state of flags and traps, calls in sequence',
 'Whether a stale flag fires or a trap of an earlier call survives depends on the history; the tests use one mask from a clean state.',
 ['src/core/ekat_fpe.cpp', 'src/core/ekat_fpe.hpp'], [('traps', 'enable_fpes, disable_fpes, disable_all_fpes, get_enabled_fpes')],
 claim=True, note='The C library functions by contract (flags and traps as state of the entry). fpe_config_string is only sampled.')
prop('L01', 'Parameter lists: typed values under names, and named sublists',
 'A parameter list holds values of any type under names, and sublists under names of their own. For every list: set stores value and type under its name; get returns the stored value, by reference, and throws exactly when the name is absent or the type asked for is not the stored one; get with a default stores the default when the name is absent and otherwise behaves like get; isParameter, isType and isSublist say exactly what is there; sublist returns the one sublist of the name, made empty when it is absent (the const form throws). Copies, assigned and importing lists hold everything the source holds, the source winning over what was there, and are independent of it. An empty sequence reads as an empty vector of any type, fixed by the first non-const read. The listings give each name once. No operation touches another name.',
 [HI, IN], 'every list over two arbitrary names: all combinations of three types, absence, and sublists, with arbitrary values; every value type of the entries',
 'Types, defaults, sublists and copies combine freely, and a wrong default or a shared sublist shows only after a later write.',
 ['src/core/ekat_parameter_list.hpp', 'src/core/ekat_parameter_list.cpp'], [('parameters', 'ParameterList::set, get, isParameter, isType'), ('sublists', 'ParameterList::sublist, isSublist'), ('copies', 'ParameterList copy, operator=, import'), ('listings', 'param_names, sublist_names')],
 claim=True, note='std::map by contract (stubs/nodemap/map: two arbitrary distinct names). Assigning keeps entries the target held and the source does not (not claimed either way). Names have one arbitrary character.')
prop('Z01', 'Zipped iteration, key iteration and container searches',
 'zip over containers throws exactly when their sizes differ. Otherwise iteration starts at the first elements, each step moves by one element in every container, it ends exactly after the last elements (at once for empty containers), and each position gives references to the elements at that position of every container, so that writes reach that element and no other; two positions compare different exactly when they are different. The key iterators visit exactly the keys of a map, in order, forward and backward, with the usual results of pre and post steps, and change nothing. find, contains, erase and count say where a value first occurs, whether it occurs, remove its first occurrence only (and say whether there was one), and say how often it occurs.',
 [IN, HI], 'every size up to 2^28, every position; every subset of three arbitrary keys; every container by the contract of std::find and std::count',
 'A size check that looks at part of the containers, or a step that moves some of them, shows only for particular sizes and positions; the tests use containers of three elements.',
 ['src/core/ekat_zip.hpp', 'src/core/ekat_std_map_key_iterator.hpp', 'src/core/ekat_std_utils.hpp'], [('zip', 'Zip, ZipIterator, ekat::zip'), ('keys', 'map_key_iterator, map_key_const_iterator'), ('searches', 'ekat::find, contains, erase, count')],
 claim=True, note='zip of one to three containers; by induction over positions (begin, step, end). std::map, std::find and std::count by contract.')
prop('T01', 'The session starts Kokkos once, with the right settings, and stops it',
 'initialize_kokkos_session starts Kokkos exactly when it is not running, and leaves a running Kokkos alone: with the arguments given, unchanged, exactly when one of them (at any position) contains "--kokkos" anywhere, and otherwise with the settings of the library (devices by MPI rank, warnings off); the form without arguments does the same without any. finalize_kokkos_session stops Kokkos exactly when it is running. Both can be called again without effect, whether or not the configuration is printed, and the arguments are left alone.',
 [HI, IN], 'every state and order of calls; bounded: up to three arguments out of eight texts (with and without --kokkos, at the start, inside and at the end)',
 'Every test runs in one session that is started once, from one command line.',
 ['src/kokkos/ekat_kokkos_session.cpp', 'src/kokkos/ekat_kokkos_session.hpp'], [('session', 'initialize_kokkos_session, finalize_kokkos_session')],
 claim=True, level='other', note='Bounded in the arguments (at most three, of eight texts; every entry is executed by the obligation generator, with the state of Kokkos by contract); not counted as proved for longer command lines.')
prop('S01', 'String utilities: split, trim, strip, join, nested lists, similarity',
 'For every text: split followed by join with the same (non-empty) delimiter gives the text back and no token contains the delimiter; trim removes exactly the leading and trailing occurrences of the character and strip all of them; case-insensitive comparison is an order that agrees with equality of the upper-case texts; a text is accepted as a nested list exactly when it follows the grammar, and parsing it gives the list it spells; the similarity measures are symmetric, lie in [0,1] and are 1 for equal texts.',
 [IN], 'every text', 'Tests compare a handful of texts.',
 ['src/core/ekat_string_utils.hpp', 'src/core/ekat_string_utils.cpp'], [('strings', 'split, trim, strip, join, CaseInsensitiveString'), ('lists', 'valid_nested_list_format, parse_nested_list'), ('similarity', 'jaro_similarity, jaccard_similarity')],
 claim=None, na='Needs quantified invariants over texts of symbolic length that are cut and joined (std::string::substr, find, insert of symbolic lengths): the obligation generator has arrays with arbitrary lengths but no theory of sequences, and its loop rules do not cover searches that leave a loop early; a check of short texts would be testing. Defects seen by reading are noted in section 4.')
prop('Y01', 'YAML files and parameter lists carry the same contents both ways',
 'For every parameter list of the supported types, writing it to a YAML file and parsing the file gives the same list: names, types, values and nesting; every entry of a YAML file is parsed to the first of bool, int, double and text that it spells, sequences to vectors of one type, and mixed sequences are refused.',
 ['programs', IN], 'every parameter list of the supported types, every YAML file', 'Tests parse one file.',
 ['src/parser/ekat_yaml.cpp', 'src/parser/ekat_yaml.hpp'], [('yaml', 'parse_yaml_file, write_yaml_file')],
 claim=None, na='The property is about text read and written by yaml-cpp and the stream library (number formatting and parsing), which are outside of the reach of the verifier; contracts that assume that these give back what they were given would assume the property.')
