// the compiler-specific omp.h, without an attribute that only g++ knows
#define __malloc__(...) __malloc__
#include "/usr/lib/gcc/x86_64-linux-gnu/13/include/omp.h"
#undef __malloc__
