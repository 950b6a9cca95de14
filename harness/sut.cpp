// The system under test: every public gcem function behind a table of plain function pointers.
// Compiled from /repo/include once per build variant (compiler x standard x optimisation x
// instrumentation) into a shared object that the monitors load.
#ifdef SUT_CMATH_FIRST
#include <cmath>
#include <cstdlib>
#endif
#include "gcem.hpp"
#include "sut.h"

#define U1(f)                                                                                     \
    static float       f##_f(float x)       { return static_cast<float>(gcem::f(x)); }            \
    static double      f##_d(double x)      { return static_cast<double>(gcem::f(x)); }           \
    static long double f##_l(long double x) { return static_cast<long double>(gcem::f(x)); }
#define U2(f)                                                                                     \
    static float       f##_f(float x, float y)             { return static_cast<float>(gcem::f(x,y)); } \
    static double      f##_d(double x, double y)           { return static_cast<double>(gcem::f(x,y)); } \
    static long double f##_l(long double x, long double y) { return static_cast<long double>(gcem::f(x,y)); }
#define U3(f)                                                                                     \
    static float       f##_f(float x, float y, float z)       { return static_cast<float>(gcem::f(x,y,z)); } \
    static double      f##_d(double x, double y, double z)    { return static_cast<double>(gcem::f(x,y,z)); } \
    static long double f##_l(long double x, long double y, long double z) { return static_cast<long double>(gcem::f(x,y,z)); }
#define UI(f,n)                                                                                   \
    static float       n##_f(float x, int k)       { return static_cast<float>(gcem::f(x,k)); }   \
    static double      n##_d(double x, int k)      { return static_cast<double>(gcem::f(x,k)); }  \
    static long double n##_l(long double x, int k) { return static_cast<long double>(gcem::f(x,k)); }

#define LIST1(X) X(abs) X(sgn) X(signbit) X(floor) X(ceil) X(trunc) X(round) X(sqrt) X(inv_sqrt)  \
    X(exp) X(expm1) X(log) X(log1p) X(log2) X(log10) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) \
    X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(lgamma) X(tgamma) X(factorial) X(erf) X(erf_inv)
#define LIST2(X) X(fmod) X(hypot) X(pow) X(atan2) X(copysign) X(max) X(min) X(beta) X(lbeta)      \
    X(log_binomial_coef) X(incomplete_gamma) X(incomplete_gamma_inv) X(gcd) X(lcm) X(binomial_coef)
#define LIST3(X) X(incomplete_beta) X(incomplete_beta_inv)

LIST1(U1) LIST2(U2) LIST3(U3)
UI(pow,powi) UI(lmgamma,lmgamma)

#define E1(f) { #f, 0, 1, 0, (void*)&f##_f }, { #f, 1, 1, 0, (void*)&f##_d }, { #f, 2, 1, 0, (void*)&f##_l },
#define E2(f) { #f, 0, 2, 0, (void*)&f##_f }, { #f, 1, 2, 0, (void*)&f##_d }, { #f, 2, 2, 0, (void*)&f##_l },
#define E3(f) { #f, 0, 3, 0, (void*)&f##_f }, { #f, 1, 3, 0, (void*)&f##_d }, { #f, 2, 3, 0, (void*)&f##_l },
#define EI(f) { #f, 0, 2, 1, (void*)&f##_f }, { #f, 1, 2, 1, (void*)&f##_d }, { #f, 2, 2, 1, (void*)&f##_l },

static const SutEntry table[] = {
    LIST1(E1) LIST2(E2) LIST3(E3) EI(powi) EI(lmgamma)
};

extern "C" const SutEntry* sut_entries(int* n)
{
    *n = (int)(sizeof(table)/sizeof(table[0]));
    return table;
}

#define I1(f) static long double f##_i0(long long x, long long) { return static_cast<long double>(gcem::f(static_cast<int>(x))); }                  \
    static long double f##_i1(long long x, long long) { return static_cast<long double>(gcem::f(x)); }                                            \
    static long double f##_i2(long long x, long long) { return static_cast<long double>(gcem::f(static_cast<unsigned long long>(x))); }
#define I2(f) static long double f##_i0(long long x, long long y) { return static_cast<long double>(gcem::f(static_cast<int>(x), static_cast<int>(y))); } \
    static long double f##_i1(long long x, long long y) { return static_cast<long double>(gcem::f(x, y)); }                                        \
    static long double f##_i2(long long x, long long y) { return static_cast<long double>(gcem::f(static_cast<unsigned long long>(x), static_cast<unsigned long long>(y))); }
#define ILIST1(X) X(abs) X(sgn) X(factorial) X(sqrt) X(inv_sqrt) X(log) X(log2) X(log10) X(log1p) X(exp) X(expm1) X(floor) X(ceil) X(trunc) X(round) X(sin) X(cos) X(tan) X(atan) X(asinh) X(tanh) X(sinh) X(erf) X(lgamma) X(tgamma)
#define ILIST2(X) X(gcd) X(lcm) X(binomial_coef) X(pow) X(max) X(min) X(hypot) X(atan2) X(fmod) X(beta) X(lbeta) X(log_binomial_coef)
ILIST1(I1) ILIST2(I2)
#define EI1(f) { #f, 0, 1, 2, (void*)&f##_i0 }, { #f, 1, 1, 2, (void*)&f##_i1 }, { #f, 2, 1, 2, (void*)&f##_i2 },
#define EI2(f) { #f, 0, 2, 2, (void*)&f##_i0 }, { #f, 1, 2, 2, (void*)&f##_i1 }, { #f, 2, 2, 2, (void*)&f##_i2 },
static const SutEntry itable[] = { ILIST1(EI1) ILIST2(EI2) };
extern "C" const SutEntry* sut_int_entries(int* n)
{
    *n = (int)(sizeof(itable)/sizeof(itable[0]));
    return itable;
}
