// C22: result types, exception specifications and the agreement of integral and mixed-type calls with the call on the
// promoted type, observed for every public function over all arithmetic argument types.
#ifdef SUT_CMATH_FIRST
#include <cmath>
#include <cstdlib>
#endif
#include "gcem.hpp"
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <set>
#include <string>
#include <type_traits>

static unsigned long long g_eval, g_viol; static std::set<std::string> g_seen;
static uint64_t rs; static uint64_t rn() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
template<class T> struct N;
#define NM(T) template<> struct N<T> { static const char* n() { return #T; } };
NM(bool) NM(wchar_t) NM(char16_t) NM(char32_t) NM(char) NM(signed char) NM(unsigned char) NM(short) NM(unsigned short) NM(int) NM(unsigned) NM(long) NM(unsigned long) NM(long long) NM(unsigned long long) NM(float) NM(double) NM(long double)
#ifdef __cpp_char8_t
NM(char8_t)
#endif
template<class T> using prom = typename std::conditional<std::is_integral<T>::value, double, T>::type;
template<class... T> using comm = typename std::common_type<T...>::type;
template<class... T> using cprom = prom<comm<T...>>;
static void fail(const std::string& s) { if (++g_viol <= 40) std::printf("VIOL %s\n", s.c_str()); }
static std::string st(long double v) { char b[64]; std::snprintf(b, sizeof b, "%.21Lg", v); return b; }
template<class A, class B> static bool same(A a, B b) { long double x = a, y = b; if (x != x) return y != y; return x == y && __builtin_signbit(x) == __builtin_signbit(y); }
template<class Want, class Got> static void type_is(const std::string& what, bool ne)
{
    ++g_eval; g_seen.insert("T " + what); if (!std::is_same<Want, Got>::value) fail(what + " has the wrong result type (size " + std::to_string(sizeof(Got)) + (std::is_integral<Got>::value ? ", integral" : ", floating") + ")");
    ++g_eval; if (!ne) fail(what + " is not noexcept");
}
// an integer that A, B and double all hold exactly
template<class A> static bool holds(long long v) { if (std::is_same<A, bool>::value) return v == 0 || v == 1; if (v < 0 && !std::is_signed<A>::value) return false; if (sizeof(A) == 1) return v >= -128 && v <= 127; if (sizeof(A) == 2) return v >= -32768 && v <= 32767; if (std::is_same<A, float>::value) return v >= -16777216 && v <= 16777216; if (sizeof(A) == 4) return v >= -2147483648LL && v <= 2147483647LL; return v > -(1LL << 53) && v < (1LL << 53); }
static const long long VALS[] = { 0, 1, 2, 3, 4, 5, 7, 10, 12, 20, 33, 50, 100, 127, 255, 1000, 32767, 65535, 100000, 16777216, 2147483647LL, 4294967295LL, 1000000000000LL, -1, -2, -3, -5, -10, -100, -1000, -2147483648LL };

// any value of an integral type, those next to powers of two and to the limits of the type included
static double g_nov[512]; static int g_nnov;      // the literals in which the headers differ from the recorded ones; none on the recorded tree
static void load_novel() { const char* p = std::getenv("GCEM_NOVEL"); std::FILE* f = p ? std::fopen(p, "r") : nullptr; if (!f) return; char b[256]; while (g_nnov < 512 && std::fgets(b, sizeof b, f)) { double v = std::atof(b); if (v >= 0.5 && v < 1e18) g_nov[g_nnov++] = v; } std::fclose(f); }
template<class T> static T anyval(std::true_type) { unsigned long long v = rn(); if (g_nnov && rn() % 6 == 0) { v = (unsigned long long)(g_nov[rn() % g_nnov] + (double)(rn() % 3)); if (v > 1 && rn() % 2) --v; T y = (T)(std::numeric_limits<T>::is_signed && rn() % 2 ? 0 - v : v); if (!std::numeric_limits<T>::is_signed || y != std::numeric_limits<T>::min()) return y; } switch (rn() % 4) { case 0: v >>= rn() % 64; break; case 1: v = (1ull << (rn() % 64)) + rn() % 5 - 2; break; case 2: v = (unsigned long long)std::numeric_limits<T>::max() - rn() % 4; break; default:; } T x = (T)v; if (std::numeric_limits<T>::is_signed && x == std::numeric_limits<T>::min()) x = (T)(x + 1); return x; }
template<class T> static T anyval(std::false_type) { if (g_nnov && rn() % 6 == 0) { double v = g_nov[rn() % g_nnov]; if (v < 1000) return (T)((double)(long long)(v * 8 + (double)(rn() % 5) - 2) / 8 * (rn() % 2 ? 1 : -1)); } return (T)((double)(long long)(rn() % 4000) / 8 - 100); }
template<class T> static T anyval() { return anyval<T>(std::is_integral<T>()); }
// a fraction that the floating-point types hold exactly, next to a value of up to 100000
template<class T> static double frac(long long v) { return std::is_integral<T>::value || v < -100000 || v > 100000 ? 0.0 : (double)(rn() % 8) / 8; }

#define UN(f) template<class T> static void u_##f() { volatile T z = T(1); (void)z; type_is<prom<T>, decltype(gcem::f(std::declval<T>()))>(std::string(#f "(") + N<T>::n() + ")", noexcept(gcem::f(std::declval<const T&>()))); \
    for (long long v : VALS) if (holds<T>(v)) { volatile T x = (T)v; volatile prom<T> y = (prom<T>)v; auto a = gcem::f((T)x); auto b = gcem::f((prom<T>)y); ++g_eval; g_seen.insert(std::string(#f "(") + N<T>::n() + ")" + st(v)); if (!same(a, b)) fail(std::string(#f "(") + N<T>::n() + " " + st(v) + ") = " + st(a) + " but on the promoted type " + st(b)); } \
    for (int k = 0; k < 3; ++k) { const T v = anyval<T>(); volatile T x = v; volatile prom<T> y = (prom<T>)v; auto a = gcem::f((T)x); auto b = gcem::f((prom<T>)y); ++g_eval; g_seen.insert(std::string(#f "(") + N<T>::n() + ")" + st((long double)v)); if (!same(a, b)) fail(std::string(#f "(") + N<T>::n() + " " + st((long double)v) + ") = " + st(a) + " but on the promoted type " + st(b)); } }
#define UNL(X) X(floor) X(ceil) X(trunc) X(round) X(sqrt) X(inv_sqrt) X(exp) X(expm1) X(log) X(log1p) X(log2) X(log10) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(lgamma) X(tgamma) X(erf) X(erf_inv)
UNL(UN)
template<class T> static void un_all()
{
#define CALLU(f) u_##f<T>();
    UNL(CALLU)
    std::string t = N<T>::n();
    type_is<T, decltype(gcem::abs(std::declval<T>()))>("abs(" + t + ")", noexcept(gcem::abs(std::declval<T>())));
    type_is<int, decltype(gcem::sgn(std::declval<T>()))>("sgn(" + t + ")", noexcept(gcem::sgn(std::declval<T>())));
    type_is<T, decltype(gcem::factorial(std::declval<T>()))>("factorial(" + t + ")", noexcept(gcem::factorial(std::declval<T>())));
    for (long long v : VALS) if (holds<T>(v)) { volatile T x = (T)v; ++g_eval; if (gcem::sgn((T)x) != (v > 0) - (v < 0)) fail("sgn(" + t + " " + st(v) + ")"); if (v > -100) { ++g_eval; if (!same((long double)gcem::abs((T)x), (long double)(v < 0 ? -v : v))) fail("abs(" + t + " " + st(v) + ")"); } }
}
// two arguments: result type and value on the common promoted type
#define BI(f, ok) template<class A, class B> static void b_##f() { typedef cprom<A, B> C; std::string nm = std::string(#f "(") + N<A>::n() + ", " + N<B>::n() + ")"; type_is<C, decltype(gcem::f(std::declval<A>(), std::declval<B>()))>(nm, noexcept(gcem::f(std::declval<A>(), std::declval<B>()))); \
    for (int k = 0; k < 16; ++k) { long long v0 = VALS[rn() % 31], w0 = VALS[rn() % 31]; const bool ints_hold = holds<A>(v0) && holds<B>(w0) && holds<comm<A, B>>(v0) && holds<comm<A, B>>(w0) && holds<C>(v0) && holds<C>(w0); const double v = (double)v0 + frac<A>(v0), w = (double)w0 + frac<B>(w0); if (!(ok) || !ints_hold) continue; volatile A x = (A)v; volatile B y = (B)w; volatile C c = (C)v, d = (C)w; auto a = gcem::f((A)x, (B)y); auto b = gcem::f((C)c, (C)d); ++g_eval; g_seen.insert(nm + st(v) + " " + st(w)); if (!same(a, b)) fail(nm + " at " + st(v) + ", " + st(w) + " = " + st(a) + " but on the promoted type " + st(b)); } \
    for (int k = 0; k < 3; ++k) { const A v0 = anyval<A>(); const B w0 = anyval<B>(); const C v = (C)v0, w = (C)w0; if (!(ok)) continue; volatile A x = v0; volatile B y = w0; volatile C c = v, d = w; auto a = gcem::f((A)x, (B)y); auto b = gcem::f((C)c, (C)d); ++g_eval; g_seen.insert(nm + st((long double)v0) + " " + st((long double)w0)); if (!same(a, b)) fail(nm + " at " + st((long double)v0) + ", " + st((long double)w0) + " = " + st(a) + " but on the promoted type " + st(b)); } }
#define BIL(X) X(fmod, true) X(hypot, true) X(atan2, true) X(beta, v > 0 && w > 0) X(lbeta, v > 0 && w > 0) X(log_binomial_coef, v >= 0 && w >= 0 && w <= v) X(incomplete_gamma, v >= 0 && w >= 0 && v < 1000) X(incomplete_gamma_inv, v >= 0 && v < 100 && w >= 0 && w <= 1)
BIL(BI)
template<class A, class B> static void pair()
{
#define CALLB(f, ok) b_##f<A, B>();
    BIL(CALLB)
    std::string p = std::string("(") + N<A>::n() + ", " + N<B>::n() + ")"; typedef comm<A, B> C; typedef cprom<A, B> P;
    type_is<C, decltype(gcem::max(std::declval<A>(), std::declval<B>()))>("max" + p, noexcept(gcem::max(std::declval<A>(), std::declval<B>())));
    type_is<C, decltype(gcem::min(std::declval<A>(), std::declval<B>()))>("min" + p, noexcept(gcem::min(std::declval<A>(), std::declval<B>())));
    type_is<C, decltype(gcem::pow(std::declval<A>(), std::declval<B>()))>("pow" + p, noexcept(gcem::pow(std::declval<A>(), std::declval<B>())));
    for (int k = 0; k < 6; ++k) {
        long long v = VALS[rn() % 31], w = VALS[rn() % 31]; if (!holds<A>(v) || !holds<B>(w) || !holds<C>(v) || !holds<C>(w) || !holds<P>(v) || !holds<P>(w)) continue;
        { const double v1 = (double)v + frac<A>(v), w1 = (double)w + frac<B>(w); volatile A x = (A)v1; volatile B y = (B)w1; g_eval += 2; if (!same((long double)gcem::max((A)x, (B)y), (long double)(v1 > w1 ? v1 : w1))) fail("max" + p + " at " + st(v1) + ", " + st(w1)); if (!same((long double)gcem::min((A)x, (B)y), (long double)(v1 < w1 ? v1 : w1))) fail("min" + p + " at " + st(v1) + ", " + st(w1));
          if (!std::is_integral<A>::value && std::is_integral<B>::value && w >= -12 && w <= 20) { auto a = gcem::pow((A)x, (B)y); auto b = gcem::pow((A)x, (int)w); ++g_eval; if (!same(a, b)) fail("pow" + p + " at " + st(v1) + ", " + st(w) + " = " + st(a) + " but with an int exponent " + st(b)); }
          if (!std::is_integral<B>::value && v1 >= 0) { volatile P c = (P)v1, d = (P)w1; auto a = gcem::pow((A)x, (B)y); auto b = gcem::pow((P)c, (P)d); ++g_eval; if (!same(a, b)) fail("pow" + p + " at " + st(v1) + ", " + st(w1) + " = " + st(a) + " but on the promoted type " + st(b)); } }
        volatile A x = (A)v; volatile B y = (B)w; ++g_eval; if (!same((long double)gcem::max((A)x, (B)y), (long double)(v > w ? v : w))) fail("max" + p + " at " + st(v) + ", " + st(w)); ++g_eval; if (!same((long double)gcem::min((A)x, (B)y), (long double)(v < w ? v : w))) fail("min" + p + " at " + st(v) + ", " + st(w));
        if (!std::is_integral<B>::value && v >= 0) { volatile P c = (P)v, d = (P)w; auto a = gcem::pow((A)x, (B)y); auto b = gcem::pow((P)c, (P)d); ++g_eval; g_seen.insert("pow" + p + st(v) + " " + st(w)); if (!same(a, b)) fail("pow" + p + " at " + st(v) + ", " + st(w) + " = " + st(a) + " but on the promoted type " + st(b)); }
    }
}
template<class A, class B> static void ints()
{
    std::string p = std::string("(") + N<A>::n() + ", " + N<B>::n() + ")"; typedef comm<A, B> C;
    type_is<C, decltype(gcem::gcd(std::declval<A>(), std::declval<B>()))>("gcd" + p, noexcept(gcem::gcd(std::declval<A>(), std::declval<B>())));
    type_is<C, decltype(gcem::lcm(std::declval<A>(), std::declval<B>()))>("lcm" + p, noexcept(gcem::lcm(std::declval<A>(), std::declval<B>())));
    type_is<C, decltype(gcem::binomial_coef(std::declval<A>(), std::declval<B>()))>("binomial_coef" + p, noexcept(gcem::binomial_coef(std::declval<A>(), std::declval<B>())));
    for (int k = 0; k < 6; ++k) {
        const A v = anyval<A>(); const B w = anyval<B>(); const int m = 1 + (int)(rn() % 60), n = (int)(rn() % 60), q = (int)(rn() % 25), r = (int)(rn() % (unsigned)(q + 2));
        auto cmp = [&](const char* f, C x, C y, long double a0, long double b0) { ++g_eval; g_seen.insert(f + p + st(a0) + " " + st(b0)); if (!same(x, y)) fail(f + p + " at " + st(a0) + ", " + st(b0) + " = " + st(x) + " but on the common type " + st(y)); };
        volatile A x = v; volatile B y = w; if (v >= 0 && w >= 0) cmp("gcd", gcem::gcd((A)x, (B)y), gcem::gcd((C)v, (C)w), v, w);
        x = (A)m; y = (B)n; cmp("lcm", gcem::lcm((A)x, (B)y), gcem::lcm((C)m, (C)n), m, n);
        x = (A)q; y = (B)r; cmp("binomial_coef", gcem::binomial_coef((A)x, (B)y), gcem::binomial_coef((C)q, (C)r), q, r);
    }
}
template<class A, class B> static void misc()
{
    std::string p = std::string("(") + N<A>::n() + ", " + N<B>::n() + ")";
    type_is<A, decltype(gcem::copysign(std::declval<A>(), std::declval<B>()))>("copysign" + p, noexcept(gcem::copysign(std::declval<A>(), std::declval<B>())));
    for (int k = 0; k < 40; ++k) { long double v = (long double)(rn() % 4000) / 8 - 100, w = (long double)(rn() % 5) - 2; if (rn() % 4 == 0) v = (A)(1 / (1 + (long double)(rn() % 1000))); if (w == 0 && rn() % 2) w = -w; volatile A x = (A)v; volatile B y = (B)w; long double want = (__builtin_signbit(w) != 0) == (__builtin_signbit(v) != 0) ? v : -v; ++g_eval; g_seen.insert("copysign" + p + st(v) + " " + st(w)); if (!same((long double)gcem::copysign((A)x, (B)y), want)) fail("copysign" + p + " at " + st(v) + ", " + st(w) + " = " + st(gcem::copysign((A)x, (B)y))); ++g_eval; if (gcem::signbit((A)x) != (__builtin_signbit(v) != 0)) fail("signbit" + p + " at " + st(v)); }
    type_is<bool, decltype(gcem::signbit(std::declval<A>()))>(std::string("signbit(") + N<A>::n() + ")", noexcept(gcem::signbit(std::declval<A>())));
}
// three arguments
template<class A, class B, class D> static void tri()
{
    typedef cprom<A, B, D> C; std::string p = std::string("(") + N<A>::n() + ", " + N<B>::n() + ", " + N<D>::n() + ")";
    type_is<C, decltype(gcem::incomplete_beta(std::declval<A>(), std::declval<B>(), std::declval<D>()))>("incomplete_beta" + p, noexcept(gcem::incomplete_beta(std::declval<A>(), std::declval<B>(), std::declval<D>())));
    type_is<C, decltype(gcem::incomplete_beta_inv(std::declval<A>(), std::declval<B>(), std::declval<D>()))>("incomplete_beta_inv" + p, noexcept(gcem::incomplete_beta_inv(std::declval<A>(), std::declval<B>(), std::declval<D>())));
    for (int k = 0; k < 3; ++k) { int v = 1 + (int)(rn() % 9), w = 1 + (int)(rn() % 9); double z = std::is_integral<D>::value ? (double)(rn() % 2) : (double)(rn() % 9) / 8; volatile A x = (A)v; volatile B y = (B)w; volatile D u = (D)z; volatile C a1 = (C)v, b1 = (C)w, c1 = (C)z;
        auto a = gcem::incomplete_beta((A)x, (B)y, (D)u); auto b = gcem::incomplete_beta((C)a1, (C)b1, (C)c1); ++g_eval; g_seen.insert("ib" + p + st(v) + " " + st(w) + " " + st(z)); if (!same(a, b)) fail("incomplete_beta" + p + " at " + st(v) + ", " + st(w) + ", " + st(z) + " = " + st(a) + " but on the promoted type " + st(b));
        auto e = gcem::incomplete_beta_inv((A)x, (B)y, (D)u); auto f = gcem::incomplete_beta_inv((C)a1, (C)b1, (C)c1); ++g_eval; if (!same(e, f)) fail("incomplete_beta_inv" + p + " at " + st(v) + ", " + st(w) + ", " + st(z) + " = " + st(e) + " but on the promoted type " + st(f)); }
}
template<class A, class B> static void lmg()
{
    std::string p = std::string("(") + N<A>::n() + ", " + N<B>::n() + ")"; type_is<prom<A>, decltype(gcem::lmgamma(std::declval<A>(), std::declval<B>()))>("lmgamma" + p, noexcept(gcem::lmgamma(std::declval<A>(), std::declval<B>())));
    for (int v = 1; v < 20; v += 3) for (int d = 1; d < 5; ++d) { volatile A x = (A)v; volatile B y = (B)d; volatile prom<A> c = (prom<A>)v; volatile int e = d; auto a = gcem::lmgamma((A)x, (B)y); auto b = gcem::lmgamma((prom<A>)c, (int)e); ++g_eval; if (!same(a, b)) fail("lmgamma" + p + " at " + st(v) + ", " + st(d) + " = " + st(a) + ", want " + st(b)); }
}
template<class A> static void row()
{
    un_all<A>(); pair<A, unsigned char>(); pair<A, long long>(); pair<A, short>(); pair<A, int>(); pair<A, unsigned>(); pair<A, long>(); pair<A, unsigned long long>(); pair<A, float>(); pair<A, double>(); pair<A, long double>();
}
template<class A> static void irow() { ints<A, unsigned char>(); ints<A, double>(); ints<A, float>(); ints<A, short>(); ints<A, int>(); ints<A, unsigned>(); ints<A, long>(); ints<A, unsigned long long>(); }
template<class A> static void trow() { tri<A, int, double>(); tri<A, double, float>(); tri<A, float, float>(); tri<A, int, int>(); tri<A, long double, double>(); tri<A, unsigned, long double>(); tri<A, float, int>(); lmg<A, int>(); lmg<A, long>(); lmg<A, unsigned>(); }
int main(int argc, char** argv)
{
    load_novel();
    rs = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; int rep = argc > 2 ? std::atoi(argv[2]) : 1;
    for (int i = 0; i < rep; ++i) {
#ifdef __cpp_char8_t
        un_all<char8_t>(); pair<char8_t, float>(); pair<long, char8_t>();
#endif
        un_all<bool>(); un_all<wchar_t>(); un_all<char16_t>(); un_all<char32_t>(); pair<bool, int>(); pair<wchar_t, double>(); pair<float, char16_t>(); pair<char32_t, bool>(); row<char>(); row<signed char>(); row<unsigned char>(); row<unsigned short>(); row<short>(); row<int>(); row<unsigned>(); row<long>(); row<unsigned long>(); row<long long>(); row<unsigned long long>(); row<float>(); row<double>(); row<long double>();
        irow<signed char>(); irow<unsigned char>(); irow<long double>(); irow<float>(); irow<short>(); irow<int>(); irow<unsigned>(); irow<long>(); irow<unsigned long long>();
        trow<int>(); trow<unsigned>(); trow<long>(); trow<float>(); trow<double>(); trow<long double>();
        misc<float, float>(); misc<float, double>(); misc<float, long double>(); misc<double, float>(); misc<double, double>(); misc<double, long double>(); misc<long double, float>(); misc<long double, double>(); misc<long double, long double>();
    }
    { int k = 0; for (auto& x : g_seen) if (++k % 3001 == 7) std::printf("SAMPLE %s\n", x.c_str()); }
    std::printf("DONE %llu %zu\n", g_eval, g_seen.size());
    return 0;
}
