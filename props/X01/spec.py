from run import *
NATIVE = {'vp': True, 'src': 'driver.cpp', 'flags': [], 'libs': []}
def tasks(ctx): return harness_tasks(ctx, flags=STRINGS, only='^(?!text)')
TRUSTED = []
ASSUMPTIONS = ['feclearexcept, feenableexcept, fedisableexcept and fegetexcept act on flags and traps as their manual pages say']
CONTRACTED = ['ekat::enable_fpes, disable_fpes, disable_all_fpes, get_enabled_fpes']
