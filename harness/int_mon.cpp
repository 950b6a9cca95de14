// C21: the integer algorithms against exact __int128 arithmetic, for every integral type and pair of types, with
// undefined operations inside the library reported by the instrumentation to the sink below.
#ifdef SUT_CMATH_FIRST
#include <cmath>
#endif
#include "gcem.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>

typedef __int128 I;
#ifdef INT_PROF     // C05: work and nesting, from the hooks in rt_prof.cpp
extern "C" { void rt_prof_reset(); void rt_prof_get(unsigned long long*, unsigned long long*, long*); void rt_prof_limit(unsigned long long, long, void (*)(int)); }
static const unsigned long long LIM_BLOCKS = 20000; static const long LIM_DEPTH = 512;
static long g_worst_d[8], g_worst_b[8]; static unsigned long long g_calls_seen, g_blocks_seen;
#else
extern "C" void rt_set_ub_sink(void (*)(const char*, const char*, unsigned));
#endif
#define NOSAN __attribute__((no_sanitize("undefined")))

static unsigned long long g_eval, g_viol, g_hash_n;
static unsigned g_ub; static char g_ubw[200];
static void sink(const char* k, const char* f, unsigned l) { if (!g_ub++) { const char* b = f ? std::strrchr(f, '/') : 0; std::snprintf(g_ubw, sizeof g_ubw, "%s at %s:%u", k, b ? b + 1 : "?", l); } }

static uint64_t rs;
NOSAN static uint64_t rn() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// set of distinct cases (open addressing)
static uint64_t* g_set; static const uint64_t SETN = 1ull << 24;
NOSAN static void seen(uint64_t h) { if (!h) h = 1; uint64_t i = h & (SETN - 1); for (int k = 0; k < 64; ++k, i = (i + 1) & (SETN - 1)) { if (g_set[i] == h) return; if (!g_set[i]) { g_set[i] = h; ++g_hash_n; return; } } }
NOSAN static uint64_t hmix(uint64_t a, uint64_t b) { uint64_t z = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static sigjmp_buf jb; static volatile sig_atomic_t armed, ticks;
static void on_sig(int s) { if (s == SIGVTALRM) { if (!armed || ++ticks < 20) return; } if (armed) { armed = 0; siglongjmp(jb, s); } std::signal(s, SIG_DFL); std::raise(s); }

#ifdef INT_PROF
static void over(int) { if (armed) { armed = 0; siglongjmp(jb, 1000); } }
#endif
template<class T> struct N;
#define NM(T) template<> struct N<T> { static const char* n() { return #T; } };
NM(char) NM(float) NM(double) NM(long double) NM(signed char) NM(unsigned char) NM(short) NM(unsigned short) NM(int) NM(unsigned) NM(long) NM(unsigned long) NM(long long) NM(unsigned long long)

static char* s128(I v, char* b) { char t[64]; int n = 0; bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; do t[n++] = '0' + (int)(u % 10); while (u /= 10); char* p = b; if (neg) *p++ = '-'; while (n) *p++ = t[--n]; *p = 0; return b; }

template<class T> NOSAN static bool fits(I v) { return v >= (I)std::numeric_limits<T>::min() && v <= (I)std::numeric_limits<T>::max(); }
// a value of T: small, any magnitude, near a power of two, near the limits
// values next to the literals in which the headers differ from the recorded ones (none on the recorded tree)
static I g_nov[1024]; static int g_nnov;
NOSAN static void load_novel()
{
    const char* p = std::getenv("GCEM_NOVEL"); std::FILE* f = p ? std::fopen(p, "r") : nullptr; if (!f) return; char b[256];
    while (g_nnov + 8 <= 1024 && std::fgets(b, sizeof b, f)) { long double v = std::strtold(b, nullptr); if (!(v >= 1 && v < 1.8e19L)) continue; I c = (I)v; for (I k = -2; k <= 2; ++k) g_nov[g_nnov++] = c + k; g_nov[g_nnov++] = 2 * c; g_nov[g_nnov++] = c / 2; if (v < 4e9L) g_nov[g_nnov++] = c * c; }
    std::fclose(f);
}
template<class T> NOSAN static T val(bool nomin)
{
    const I mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
    for (;;) {
        I v; uint64_t r = rn(); int bits = sizeof(T) * 8;
        if (g_nnov && rn() % 6 == 0) { v = g_nov[rn() % g_nnov]; if (rn() & 1) v = -v; }
        else switch (r % 6) {
            case 0: v = (I)(rn() % 41) - 20; break;
            case 1: v = (I)(rn() % 2001) - 1000; break;
            case 2: v = (I)(rn() >> (rn() % 64)); if (rn() & 1) v = -v; break;
            case 3: v = ((I)1 << (rn() % bits)) + (I)(rn() % 5) - 2; if (rn() & 1) v = -v; break;
            case 4: v = (rn() & 1) ? mx - (I)(rn() % 4) : mn + (I)(rn() % 4); break;
            default: { v = 1; static const int pr[] = { 2, 2, 2, 3, 3, 5, 7, 11, 13 }; I lim = (I)1 << (rn() % bits); while (v < lim) v *= pr[rn() % 9]; if (rn() & 1) v = -v; }
        }
        if (v < mn || v > mx || (nomin && v == mn && mn < 0)) continue;
        return (T)v;
    }
}
static void report(const char* fn, const char* t1, const char* t2, I a, I b, bool two, const char* got)
{
    char x[64], y[64]; if (++g_viol > 30) return;
    if (two) std::printf("VIOL %s<%s,%s>(%s, %s) %s\n", fn, t1, t2, s128(a, x), s128(b, y), got); else std::printf("VIOL %s<%s>(%s) %s\n", fn, t1, s128(a, x), got);
    std::fflush(stdout);
}
template<class F> static void run(const char* fn, int id, const char* t1, const char* t2, I a, I b, bool two, I want, F f)
{
    ++g_eval; seen(hmix(hmix(hmix(id, (uint64_t)a), (uint64_t)b), hmix((uint64_t)t1[0] * 131 + t1[std::strlen(t1) - 1] + std::strlen(t1) * 7, (uint64_t)t2[0] * 131 + std::strlen(t2))));
    g_ub = 0; ticks = 0; volatile int bad = 0; I got = 0;
    int s = sigsetjmp(jb, 1);
#ifdef INT_PROF
    rt_prof_limit(~0ull, 1L << 60, 0);
    if (s == 0) { armed = 1; rt_prof_limit(LIM_BLOCKS * 8, LIM_DEPTH * 8, over); rt_prof_reset(); got = f(); armed = 0; } else bad = s;
    unsigned long long pc, pb; long pd; rt_prof_get(&pc, &pb, &pd); rt_prof_limit(~0ull, 1L << 60, 0); g_calls_seen += pc; g_blocks_seen += pb;
    int slot = fn[0] == 'g' ? 0 : fn[0] == 'l' ? 1 : fn[0] == 'b' ? 2 : fn[0] == 'p' ? 3 : fn[0] == 'f' ? 4 : 5;
    if (pd > g_worst_d[slot]) g_worst_d[slot] = pd;
    if ((long)pb > g_worst_b[slot]) g_worst_b[slot] = (long)pb;
    if (bad || pd > LIM_DEPTH || pb > LIM_BLOCKS) { char w[200]; std::snprintf(w, sizeof w, "nesting %ld (limit %ld), basic blocks %llu (limit %llu)%s", pd, LIM_DEPTH, pb, LIM_BLOCKS, bad == 1000 ? ", broken off" : bad == SIGVTALRM ? ", did not return" : bad ? ", fatal signal" : ""); report(fn, t1, t2, a, b, two, w); if (bad == SIGVTALRM && g_viol > 2) std::exit(0); }
    (void)want; return;
#endif
    if (s == 0) { armed = 1; got = f(); armed = 0; } else bad = s;
    char m[400], x[64], y[64];
    if (g_eval % 200003 == 77) { char z[64]; std::printf("SAMPLE %s<%s,%s>(%s, %s) = %s\n", fn, t1, t2, s128(a, x), s128(b, y), s128(got, z)); }
    if (bad) { std::snprintf(m, sizeof m, bad == SIGVTALRM ? "does not return" : "ended with signal %d", (int)bad); report(fn, t1, t2, a, b, two, m); if (bad == SIGVTALRM && g_viol > 2) std::exit(0); }
    else if (g_ub) { std::snprintf(m, sizeof m, "undefined behaviour: %s", g_ubw); report(fn, t1, t2, a, b, two, m); }
#ifndef INT_UB_ONLY
    else if (got != want) { std::snprintf(m, sizeof m, "= %s, want %s", s128(got, x), s128(want, y)); report(fn, t1, t2, a, b, two, m); }
#endif
}
NOSAN static I gcd128(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static const I BIG = ((I)1 << 100);

template<class A, class B> static void pairs(uint64_t n)
{
    typedef typename std::common_type<A, B>::type C; const char *ta = N<A>::n(), *tb = N<B>::n();
    for (uint64_t i = 0; i < n; ++i) {
        A a = val<A>(true); B b = val<B>(true); if (rn() % 8 == 0 && fits<B>((I)a) && (I)a != (I)std::numeric_limits<B>::min()) b = (B)a;
        if (rn() % 64 == 0) { I f0 = 1, f1 = 1; for (uint64_t k = rn() % 90; k && fits<A>(f0 + f1) && fits<B>(f1); --k) { I f2 = f0 + f1; f0 = f1; f1 = f2; } if (fits<A>(f1) && fits<B>(f0)) { a = (A)f1; b = (B)f0; } }     // consecutive Fibonacci numbers
        I g = gcd128(a, b); if (fits<C>(g) && fits<C>((I)a < 0 ? -(I)a : (I)a) && fits<C>((I)b < 0 ? -(I)b : (I)b)) {
            run("gcd", 1, ta, tb, a, b, true, g, [&] { return (I)gcem::gcd(a, b); });
            I aa = (I)a < 0 ? -(I)a : (I)a, bb = (I)b < 0 ? -(I)b : (I)b; I l = g == 0 ? 0 : (aa / g);
            if (l == 0 || bb == 0 || l < BIG / bb) { l *= bb; if (fits<C>(l)) run("lcm", 2, ta, tb, a, b, true, l, [&] { return (I)gcem::lcm(a, b); }); }
        }
        // binomial coefficients that are representable
        { I nn = rn() % 3 ? (I)(rn() % 70) : (I)(rn() >> (rn() % 63)), kk = rn() % 4 ? (I)(rn() % 36) : nn - (I)(rn() % 6); if (rn() % 16 == 0) kk = nn + (I)(rn() % 5);
          if (rn() % 16 == 1) { kk = -1 - (I)(rn() >> (rn() % 64)); if (nn >= 0 && fits<A>(nn) && fits<B>(kk) && fits<C>(nn) && fits<C>(kk)) run("binomial_coef", 3, ta, tb, nn, kk, true, 0, [&] { return (I)gcem::binomial_coef((A)nn, (B)kk); }); }
          if (kk >= 0 && fits<A>(nn) && fits<B>(kk) && fits<C>(nn) && fits<C>(kk)) { I k2 = nn - kk < kk ? nn - kk : kk, c = kk > nn ? 0 : 1; if (k2 > 400) goto skip; for (I j = 1; c && j <= k2; ++j) { if (c > BIG / nn) { c = -1; break; } c = c * (nn - k2 + j) / j; }
            if (c >= 0 && fits<C>(c)) run("binomial_coef", 3, ta, tb, nn, kk, true, c, [&] { return (I)gcem::binomial_coef((A)nn, (B)kk); }); } skip:; }
        // integral powers that are representable
        { I bb = rn() % 3 ? (I)(rn() % 41) - 20 : (I)val<A>(false), ee = rn() % 3 ? (I)(rn() % 12) : (I)(rn() % 70); if (rn() % 10 == 0) bb = (I)(rn() % 3) - 1; if ((bb == 0 || bb == 1 || bb == -1) && rn() % 2) ee = (I)val<B>(false); if (rn() % 8 == 0 && bb != 0) ee = -ee;
          if (fits<A>(bb) && fits<B>(ee) && fits<C>(bb) && !(bb == 0 && ee < 0) && !(ee < 0 && !std::is_signed<C>::value && bb < 0)) {
            I p = 1; bool ok = true;
            if (bb == 1 || bb == 0) p = (bb == 0 && ee != 0) ? 0 : 1; else if (bb == -1) p = ee % 2 ? -1 : 1;
            else if (ee < 0) { p = 1; for (I j = 0; j < -ee && ok; ++j) { if (p > BIG / (bb < 0 ? -bb : bb) || p < -(BIG / (bb < 0 ? -bb : bb))) ok = false; else p *= bb; } ok = ok && fits<C>(p); p = 0; }
            else for (I j = 0; j < ee && ok; ++j) { if (p > BIG / (bb < 0 ? -bb : bb) || p < -(BIG / (bb < 0 ? -bb : bb))) ok = false; else p *= bb; }
            if (ok && fits<C>(p)) run("pow", 4, ta, tb, bb, ee, true, p, [&] { return (I)gcem::pow((A)bb, (B)ee); }); } }
        // maximum and minimum, where the usual conversions keep both values
        if (fits<C>((I)a) && fits<C>((I)b)) { run("max", 5, ta, tb, a, b, true, (I)a > (I)b ? (I)a : (I)b, [&] { return (I)gcem::max(a, b); }); run("min", 6, ta, tb, a, b, true, (I)a < (I)b ? (I)a : (I)b, [&] { return (I)gcem::min(a, b); }); }
    }
}
template<class A> static void each(uint64_t n)
{
    const char* ta = N<A>::n();
    I f = 1; for (int k = 0; k <= 25; ++k) { if (k) f *= k; if (fits<A>(f) && fits<A>(k)) run("factorial", 7, ta, "", k, 0, false, f, [&] { volatile A x = (A)k; return (I)gcem::factorial((A)x); }); }
    for (uint64_t i = 0; i < n; ++i) {
        A a = val<A>(true); run("abs", 8, ta, "", a, 0, false, (I)a < 0 ? -(I)a : (I)a, [&] { return (I)gcem::abs(a); });
        A b = val<A>(false); run("sgn", 9, ta, "", b, 0, false, (I)b > 0 ? 1 : (I)b < 0 ? -1 : 0, [&] { return (I)gcem::sgn(b); });
    }
    pairs<A, char>(n); pairs<A, signed char>(n); pairs<A, unsigned char>(n); pairs<A, short>(n); pairs<A, unsigned short>(n); pairs<A, int>(n); pairs<A, unsigned>(n); pairs<A, long>(n); pairs<A, unsigned long>(n); pairs<A, long long>(n); pairs<A, unsigned long long>(n);
}
// floating-point arguments (and one integral argument) holding integers: the result is exact if it and the arguments are representable
template<class T> NOSAN static bool holds(I v) { T x = (T)v; return (I)x == v; }
template<class T> NOSAN static typename std::enable_if<!std::is_integral<T>::value, T>::type fval()
{
    for (;;) { I v; switch (rn() % 5) { case 0: v = (I)(rn() % 100); break; case 1: v = (I)(rn() % 100000); break; case 2: v = (I)(rn() >> (1 + rn() % 62)); break; case 3: v = ((I)1 << (rn() % 63)) + (I)(rn() % 3) - 1; break;
            default: { v = 1; static const int pr[] = { 2, 2, 2, 3, 3, 5, 7, 11, 13 }; I lim = (I)1 << (rn() % 62); while (v < lim) v *= pr[rn() % 9]; } }
        if (v < 0 || v >= ((I)1 << 63) || !holds<T>(v)) continue; return (T)((rn() & 3) == 0 ? -v : v); }
}
template<class T> NOSAN static typename std::enable_if<std::is_integral<T>::value, T>::type fval() { return val<T>(true); }
template<class A, class B> static void fpairs(uint64_t n)
{
    typedef typename std::common_type<A, B>::type C; const char *ta = N<A>::n(), *tb = N<B>::n();
    for (uint64_t i = 0; i < n; ++i) {
        A x = fval<A>(); B y = fval<B>(); I a = (I)x, b = (I)y; if (rn() % 8 == 0) { I m = (I)(rn() % 1000); if (fits<long>(a * m) && holds<B>(a * m) && (!std::is_integral<B>::value || fits<B>(a * m))) { b = a * m; y = (B)b; } }
        if (!holds<C>(a) || !holds<C>(b)) continue;
        I g = gcd128(a, b); run("gcd", 18, ta, tb, a, b, true, g, [&] { return (I)gcem::gcd(x, y); });
        I aa = a < 0 ? -a : a, bb = b < 0 ? -b : b, l = g == 0 ? 0 : aa / g;
        if (l == 0 || bb == 0 || l < BIG / bb) { l *= bb; if (holds<C>(l)) run("lcm", 19, ta, tb, a, b, true, l, [&] { return (I)gcem::lcm(x, y); }); }
        I nn = rn() % 3 ? (I)(rn() % 70) : (I)(rn() >> (2 + rn() % 60)), kk = rn() % 4 ? (I)(rn() % 36) : nn - (I)(rn() % 6); if (rn() % 16 == 0) kk = nn + (I)(rn() % 5);
        if (kk >= 0 && holds<A>(nn) && holds<B>(kk) && holds<C>(nn) && holds<C>(kk) && (!std::is_integral<A>::value || fits<A>(nn)) && (!std::is_integral<B>::value || fits<B>(kk))) {
            I k2 = nn - kk < kk ? nn - kk : kk, c = kk > nn ? 0 : 1; if (k2 > 400) continue; for (I j = 1; c && j <= k2; ++j) { if (c > BIG / nn) { c = -1; break; } c = c * (nn - k2 + j) / j; }
            if (c >= 0 && c < ((I)1 << 63) && holds<C>(c)) run("binomial_coef", 20, ta, tb, nn, kk, true, c, [&] { return (I)gcem::binomial_coef((A)nn, (B)kk); }); }
    }
}
template<class A> static void feach(uint64_t n) { fpairs<A, float>(n); fpairs<A, double>(n); fpairs<A, long double>(n); }
// all small arguments: every pair in -64..64 (gcd, lcm), all n <= 67, k <= n (binomial), all b^e in range
static void small()
{
    for (long a = -64; a <= 64; ++a) for (long b = -64; b <= 64; ++b) { volatile long x = a, y = b; I g = gcd128(a, b); run("gcd", 11, "long", "long", a, b, true, g, [&] { return (I)gcem::gcd((long)x, (long)y); }); I l = g ? ((I)a * b < 0 ? -(I)a * b : (I)a * b) / g : 0; run("lcm", 12, "int", "int", a, b, true, l, [&] { return (I)gcem::lcm((int)x, (int)y); }); }
    I row[70] = { 1 }; for (int n = 0; n <= 67; ++n) { for (int k = 0; k <= n + 2; ++k) { I w = k <= n ? row[k] : 0; if (fits<unsigned long long>(w)) { volatile unsigned long long x = n, y = k; run("binomial_coef", 13, "ull", "ull", n, k, true, w, [&] { return (I)gcem::binomial_coef((unsigned long long)x, (unsigned long long)y); }); } if (fits<long long>(w)) { volatile long long x = n, y = k; run("binomial_coef", 14, "ll", "ll", n, k, true, w, [&] { return (I)gcem::binomial_coef((long long)x, (long long)y); }); } if (fits<int>(w)) { volatile int x = n, y = k; run("binomial_coef", 15, "int", "int", n, k, true, w, [&] { return (I)gcem::binomial_coef((int)x, (int)y); }); } } for (int k = n + 1 < 70 ? n + 1 : 69; k > 0; --k) row[k] += row[k - 1]; }
    for (int b = -200; b <= 200; ++b) { I p = 1; for (int e = 0; e <= 63; ++e) { if (fits<long long>(p)) { volatile long long x = b; volatile int y = e; run("pow", 16, "ll", "int", b, e, true, p, [&] { return (I)gcem::pow((long long)x, (int)y); }); } if (fits<int>(p)) { volatile int x = b, y = e; run("pow", 17, "int", "int", b, e, true, p, [&] { return (I)gcem::pow((int)x, (int)y); }); } if (p > BIG / 201 || p < -BIG / 201) break; p *= b; } }
    // floating-point arguments holding integers
    for (int a = 0; a <= 300; ++a) for (int b = 0; b <= 60; ++b) { volatile double x = a, y = b; run("gcd", 18, "double", "double", a, b, true, gcd128(a, b), [&] { return (I)gcem::gcd((double)x, (double)y); }); }
}
int main(int argc, char** argv)
{
    load_novel();
    rs = argc > 1 ? std::strtoull(argv[1], 0, 10) * 7919 + 13 : 1; int shard = argc > 2 ? std::atoi(argv[2]) : 0; uint64_t n = argc > 3 ? std::strtoull(argv[3], 0, 10) : 1000; rs += (uint64_t)shard * 1000003;
    g_set = (uint64_t*)std::calloc(SETN, 8);
#ifndef INT_PROF
    rt_set_ub_sink(sink);
#endif
   
    static char alt[1 << 16]; stack_t st; std::memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, 0);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; const int sg[] = { SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGTRAP, SIGVTALRM }; for (int s : sg) sigaction(s, &sa, 0);
    struct itimerval it = { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
    if (shard == 0) small();
    each<char>(n); each<signed char>(n); each<unsigned char>(n); each<short>(n); each<unsigned short>(n); each<int>(n); each<unsigned>(n); each<long>(n); each<unsigned long>(n); each<long long>(n); each<unsigned long long>(n);
    feach<float>(n); feach<double>(n); feach<long double>(n); feach<short>(n); feach<int>(n); feach<unsigned>(n); feach<long long>(n); feach<unsigned long long>(n); fpairs<float, int>(n); fpairs<double, unsigned>(n); fpairs<double, long long>(n); fpairs<long double, unsigned long long>(n);
#ifdef INT_PROF
    { const char* nm[] = { "gcd", "lcm", "binomial_coef", "pow", "factorial", "max, min, abs, sgn" }; for (int i = 0; i < 6; ++i) std::printf("WORST %ld %ld %s\n", g_worst_d[i], g_worst_b[i], nm[i]); std::printf("WORK %llu %llu\n", g_calls_seen, g_blocks_seen); }
#endif
    std::printf("DONE %llu %llu\n", g_eval, g_hash_n);
    return 0;
}
