from run import *
MPI = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-DOMPI_SKIP_MPICXX']
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': MPI + ['-DEKAT_ENABLE_MPI', '-DEKAT_MPI_ERRORS_ARE_FATAL'], 'libs': ['-lmpi', '-ldl']}
def tasks(ctx): return harness_tasks(ctx, defs=('EKAT_ENABLE_MPI', 'EKAT_MPI_ERRORS_ARE_FATAL'), flags=MPI + STRINGS) + harness_tasks(ctx, flags=STRINGS, prefix='serial:')
TRUSTED = []
ASSUMPTIONS = ['the MPI library does what the standard says of each call; the calls are recorded by stand-ins', 'MPI is initialized (the check for it is an assert)']
CONTRACTED = ['ekat::Comm: constructors, reset_mpi_comm, broadcast, scan, all_reduce, all_gather, barrier, split, am_i_root', 'ekat::get_mpi_type', 'ekat::logger::LogAllRanks/LogRootRank::should_log']
