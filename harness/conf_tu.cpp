// C24: one translation unit per inclusion environment (CONF), all linked into one program: each exports the same table
// of results; the program compares them bit by bit with a unit that includes nothing else.
#if CONF == 1            // macros that C libraries and platform headers are known to define
#define abs(x) BROKEN_MACRO_abs x
#define min(a,b) BROKEN_MACRO_min a b
#define max(a,b) BROKEN_MACRO_max a b
#define round(x) BROKEN_MACRO_round x
#define signbit(x) BROKEN_MACRO_signbit x
#elif CONF == 2          // the C++ mathematics headers first, names pulled into the global namespace
#include <cmath>
#include <complex>
#include <cstdlib>
#include <algorithm>
#include <numeric>
using namespace std;
#elif CONF == 3          // the C headers first
#include <math.h>
#include <stdlib.h>
#include <float.h>
#elif CONF == 4          // included twice
#include "gcem.hpp"
#elif CONF == 5          // the headers of the standard library afterwards
#include "gcem.hpp"
#include <cmath>
#include <math.h>
#include <algorithm>
#include <numeric>
using namespace std;
#elif CONF == 6          // object-like macros of the same names
#define abs BROKEN_MACRO_abs
#define min BROKEN_MACRO_min
#define max BROKEN_MACRO_max
#define round BROKEN_MACRO_round
#define signbit BROKEN_MACRO_signbit
#elif CONF == 7          // user functions of the same names in the global namespace
double exp_user; static inline double exp(double, int) { return -1; } static inline float sqrt(float, int) { return -1; } static inline int gcd(int, int, int) { return -1; } template<class T> static inline T beta(T x) { return -x; } static inline double pow(double, double, double) { return -7; }
#endif
#include "gcem.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// volatile: evaluated at run time
static volatile double vd[] = { 0.3, 1.7, 2.5, 12.0, 0.75, 33.25 }; static volatile float vf[] = { 0.3f, 1.7f, 2.5f, 12.0f, 0.75f, 33.25f }; static volatile int vi[] = { 3, 12, -7, 20, 5, 1 };
extern "C" int CAT(conf_results_, CONF)(long double* o)
{
    int n = 0;
    for (int i = 0; i < 6; ++i) {
        double d = vd[i]; float f = vf[i]; int k = vi[i]; double p = i == 0 || i == 4 ? d : 1 / d;
#define R(x) o[n++] = static_cast<long double>(x);
        R(gcem::abs(-d)) R(gcem::abs(k)) R(gcem::min(d, 2.0)) R((gcem::max)(f, 2.0f)) R(gcem::min(k, 4)) R(gcem::max(k, 4)) R(gcem::round(d)) R(gcem::round(f)) R(gcem::signbit(-d)) R(gcem::signbit(f)) R(gcem::copysign(d, -1.0)) R(gcem::sgn(k))
        R(gcem::floor(d)) R(gcem::ceil(d)) R(gcem::trunc(-d)) R(gcem::fmod(d, 0.7)) R(gcem::sqrt(d)) R(gcem::inv_sqrt(f)) R(gcem::exp(f)) R(gcem::expm1(d)) R(gcem::log(d)) R(gcem::log1p(d)) R(gcem::log2(d)) R(gcem::log10(f)) R(gcem::pow(d, 1.5)) R(gcem::pow(k, 2)) R(gcem::pow(d, 3)) R(gcem::hypot(d, f))
        R(gcem::sin(d)) R(gcem::cos(d)) R(gcem::tan(d)) R(gcem::asin(p)) R(gcem::acos(p)) R(gcem::atan(d)) R(gcem::atan2(d, -f)) R(gcem::sinh(d)) R(gcem::cosh(d)) R(gcem::tanh(d)) R(gcem::asinh(d)) R(gcem::acosh(d + 1)) R(gcem::atanh(p)) R(gcem::lgamma(d)) R(gcem::tgamma(d)) R(gcem::lmgamma(d + 2, 3)) R(gcem::beta(d, f)) R(gcem::lbeta(d, f)) R(gcem::erf(d)) R(gcem::erf_inv(p))
        R(gcem::factorial(k < 0 ? -k : k)) R(gcem::binomial_coef(20, k < 0 ? -k : k)) R(gcem::log_binomial_coef(40.0, d)) R(gcem::gcd(k, 18)) R(gcem::lcm(k, 18)) R(gcem::incomplete_gamma(d, 2.0)) R(gcem::incomplete_gamma_inv(d, p)) R(gcem::incomplete_beta(d, 2.0, p)) R(gcem::incomplete_beta_inv(d, 2.0, p))
    }
    return n;
}
// constants bound at compile time in this environment
extern "C" int CAT(conf_constants_, CONF)(long double* o)
{
    constexpr double c0 = gcem::exp(1.0), c1 = gcem::sqrt(2.0), c2 = gcem::pow(2.0, 0.5), c3 = gcem::incomplete_beta(2.0, 3.0, 0.25), c4 = gcem::erf(0.5), c5 = (gcem::abs)(-2.5), c6 = gcem::round(2.5), c7 = (gcem::max)(1.0, 2.0); constexpr int c8 = gcem::gcd(12, 18);
    o[0] = c0; o[1] = c1; o[2] = c2; o[3] = c3; o[4] = c4; o[5] = c5; o[6] = c6; o[7] = c7; o[8] = c8; return 9;
}
// identity of the inline functions across translation units
extern "C" const void* CAT(conf_address_, CONF)(int i) { double (*a)(double) = &gcem::exp<double>; float (*b)(float) = &gcem::sqrt<float>; double (*c)(double, double) = &gcem::pow<double, double>; return i == 0 ? (const void*)a : i == 1 ? (const void*)b : (const void*)c; }
