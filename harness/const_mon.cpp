// C27: the constants and the Gauss-Legendre rules of the library, observed as a user sees them: values against binary128
// references computed here, and the rules by what they integrate.
#ifdef SUT_CMATH_FIRST
#include <cmath>
#include <cstdlib>
#endif
#include <cstddef>
#include "gcem.hpp"
#ifdef HAVE_30
namespace rule30 {
#include "gcem_incl/quadrature/gauss_legendre_30.hpp"
}
#endif
// of libquadmath (its header is not on Clang's path)
extern "C" { __float128 fabsq(__float128); __float128 logq(__float128); __float128 sqrtq(__float128); __float128 strtoflt128(const char*, char**); int quadmath_snprintf(char*, std::size_t, const char*, ...); }
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <set>
#include <string>
typedef __float128 Q;
static unsigned long long g_eval, g_viol; static std::set<std::string> g_seen;
static uint64_t rs; static double un() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return (double)(z >> 11) / 9007199254740992.0; }
static double g_worst; static std::string g_worst_at;
static void judge(const std::string& what, Q got, Q want, Q scale, double limit)
{   // error in units of the long double rounding error of scale
    ++g_eval; g_seen.insert(what);
    double e = scale == 0 ? (got == want ? 0 : 1e9) : (double)(fabsq(got - want) / (scale * (Q)1.0842021724855044e-19)); if (!(got == got)) e = 1e9;
    if (e > g_worst && e <= limit) { g_worst = e; g_worst_at = what; }
    if (!(e <= limit) && ++g_viol <= 20) { char a[64], b[64]; quadmath_snprintf(a, sizeof a, "%.24Qg", got); quadmath_snprintf(b, sizeof b, "%.24Qg", want); std::printf("VIOL %s is %s, want %s (error %.3g, limit %g)\n", what.c_str(), a, b, e, limit); }
}
static Q leg(int n, Q x, Q& d) { Q p = 1, q = x; for (int k = 2; k <= n; ++k) { Q t = ((2 * k - 1) * x * q - (k - 1) * p) / k; p = q; q = t; } d = n * (x * q - p) / (x * x - 1); return q; }
template<class P, class W> static void rule(const char* nm, const P& pts, const W& wts, int n, int polys)
{
    std::string s = nm; Q sum = 0;
    std::set<long double> nodes;
    for (int i = 0; i < n; ++i) {
        Q x = pts[i], d = 1; for (int it = 0; it < 60; ++it) { Q f = leg(n, x, d), dx = f / d; x -= dx; if (fabsq(dx) < 1e-32) break; }
        leg(n, x, d); judge(s + " node " + std::to_string(i), pts[i], x, fabsq(x), 0.51); judge(s + " weight " + std::to_string(i), wts[i], 2 / ((1 - x * x) * d * d), 2 / ((1 - x * x) * d * d), 0.51);
        sum += wts[i]; nodes.insert(pts[i]);
    }
    judge(s + " number of different nodes", nodes.size(), n, 1, 0);
    judge(s + " sum of the weights", sum, 2, 2, 1);
    for (int k = 0; k < polys; ++k) {   // a random polynomial of degree below 2n over a random interval
        Q a = -1 + un() * 0.5, b = a + un() * 3 + 0.01, c[128]; int deg = k < 2 * n ? k : (int)(un() * 2 * n);
        for (int j = 0; j <= deg; ++j) c[j] = un() * 2 - 1;
        Q got = 0, slack = 0, want = 0;                       // in powers of u = (x - mid)/half, which stay within [-1,1]
        Q half = (b - a) / 2;
        for (int i = 0; i < n; ++i) { Q u = pts[i], p = 0, dp = 0; for (int j = deg; j >= 0; --j) { dp = dp * u + p; p = p * u + c[j]; } got += half * wts[i] * p; slack += half * wts[i] * (fabsq(p) + fabsq(dp)); }
        for (int j = 0; j <= deg; j += 2) want += half * c[j] * 2 / (j + 1);
        judge(s + " polynomial of degree " + std::to_string(deg) + " #" + std::to_string(k), got, want, slack, 0.75);
    }
}
int main(int argc, char** argv)
{
    rs = std::strtoull(argv[1], 0, 10); int polys = std::atoi(argv[2]); const Q pi = strtoflt128("3.141592653589793238462643383279502884197169399375", 0);
#define K(m, v) judge(#m, (Q)(m), (v), fabsq(v), 0.51);
#ifdef GCEM_LOG_2
    K(GCEM_LOG_2, logq(2))
#endif
#ifdef GCEM_LOG_10
    K(GCEM_LOG_10, logq(10))
#endif
#ifdef GCEM_PI
    K(GCEM_PI, pi)
#endif
#ifdef GCEM_LOG_PI
    K(GCEM_LOG_PI, logq(pi))
#endif
#ifdef GCEM_LOG_2PI
    K(GCEM_LOG_2PI, logq(2 * pi))
#endif
#ifdef GCEM_LOG_SQRT_2PI
    K(GCEM_LOG_SQRT_2PI, logq(2 * pi) / 2)
#endif
#ifdef GCEM_SQRT_2
    K(GCEM_SQRT_2, sqrtq(2))
#endif
#ifdef GCEM_HALF_PI
    K(GCEM_HALF_PI, (pi / 2))
#endif
#ifdef GCEM_SQRT_PI
    K(GCEM_SQRT_PI, sqrtq(pi))
#endif
#ifdef GCEM_SQRT_HALF_PI
    K(GCEM_SQRT_HALF_PI, sqrtq((pi / 2)))
#endif
#ifdef GCEM_E
    K(GCEM_E, strtoflt128("2.718281828459045235360287471352662497757247", 0))
#endif
#ifdef HAVE_50
    { using namespace gcem; using namespace gcem::internal; rule("50-point rule", gauss_legendre_50_points, gauss_legendre_50_weights, 50, polys); }
#endif
#ifdef HAVE_30
    { using namespace rule30; using namespace gcem; using namespace gcem::internal; rule("30-point rule", gauss_legendre_30_points, gauss_legendre_30_weights, 30, polys); }
#endif
    std::printf("WORST %.3f %s\nDONE %llu %zu\n", g_worst, g_worst_at.c_str(), g_eval, g_seen.size());
    return g_viol != 0;
}
