// Entry points for the generator; the bodies proved are the ones in /repo.
#include "ekat_rational_constant.hpp"
using R = ekat::RationalConstant;
using L = long long;
extern "C" {
L    e_gcd (L a, L b) { return ekat::gcd(a,b); }
void e_ctor(R* o, L n, L d) { *o = R(n,d); }
void e_ctori(R* o, int n, int d) { *o = R(n,d); }
void e_one_arg(R* o, L n) { *o = R(n); }
void e_neg(R* o, const R* a) { *o = -*a; }
void e_add(R* o, const R* a, const R* b) { *o = *a + *b; }
void e_sub(R* o, const R* a, const R* b) { *o = *a - *b; }
void e_mul(R* o, const R* a, const R* b) { *o = *a * *b; }
void e_div(R* o, const R* a, const R* b) { *o = *a / *b; }
bool e_eq (const R* a, const R* b) { return *a == *b; }
bool e_ne (const R* a, const R* b) { return *a != *b; }
void e_pow_i(R* o, const R* a, int p) { *o = pow(*a,p); }
void e_pow_l(R* o, const R* a, L p) { *o = pow(*a,p); }
}
