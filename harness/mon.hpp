// Shared parts of the monitors: variants of the system under test, guarded calls, generators, reporting.
#pragma once
#include <quadmath.h>
#include <dlfcn.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "sut.h"

typedef __float128 Q;
typedef long double L;
static const char TC[4] = "fdl";
static const L EPS[3]  = { std::numeric_limits<float>::epsilon(), std::numeric_limits<double>::epsilon(), std::numeric_limits<L>::epsilon() };
static const L MINN[3] = { std::numeric_limits<float>::min(), std::numeric_limits<double>::min(), std::numeric_limits<L>::min() };
static const L MAXV[3] = { std::numeric_limits<float>::max(), std::numeric_limits<double>::max(), std::numeric_limits<L>::max() };
static const L DENM[3] = { std::numeric_limits<float>::denorm_min(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<L>::denorm_min() };
static const L INFL = std::numeric_limits<L>::infinity();
static const L NANL = std::numeric_limits<L>::quiet_NaN();

static inline L rnd(L x, int t) { return t == 0 ? (L)(float)x : t == 1 ? (L)(double)x : x; }
static inline L stepu(L x, int t, int k)   // k units in the last place away
{
    for (; k > 0; --k) x = t == 0 ? (L)std::nextafter((float)x, INFINITY) : t == 1 ? (L)std::nextafter((double)x, (double)INFINITY) : std::nextafter(x, INFL);
    for (; k < 0; ++k) x = t == 0 ? (L)std::nextafter((float)x, -INFINITY) : t == 1 ? (L)std::nextafter((double)x, -(double)INFINITY) : std::nextafter(x, -INFL);
    return x;
}
static inline bool same(L a, L b)          // identical up to NaN payload
{
    if (a != a || b != b) return a != a && b != b;
    return a == b && std::signbit(a) == std::signbit(b);
}

// ---------------------------------------------------------------- random choices
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    L u() { return (L)(next() >> 1) / (L)9223372036854775808.0L; }
    L uni(L lo, L hi) { return lo + (hi - lo) * u(); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    L sign() { return (next() & 1) ? 1 : -1; }
    bool p(double q) { return (double)u() < q; }
};

static std::vector<L> g_lits;        // literals found in /repo's headers and values derived from them, sorted

static std::vector<L> g_novel;       // the same for the literals that differ from the recorded headers; empty on the recorded tree

static std::vector<L> lits_file(const char* path, bool between)
{
    std::vector<L> base;
    if (FILE* f = fopen(path, "r")) { char b[256]; while (fgets(b, sizeof b, f)) { L v = strtold(b, 0); if (v > 0 && v < INFL) base.push_back(v); } fclose(f); }
    std::sort(base.begin(), base.end()); base.erase(std::unique(base.begin(), base.end()), base.end());
    std::set<L> d;
    const L pi = 3.14159265358979323846264338327950288L;
    for (size_t i = 0; i < base.size(); ++i) {
        L c = base[i];
        const L v[] = { c, c*c, sqrtl(c), 2*c, c/2, c*pi, c*pi/2, c/pi, 1/c, c+1, c-1, 1-c, 1/c-1, expl(c), expl(-c), logl(c), sqrtl(1+c*c), c/sqrtl(1+c*c), expm1l(c) };
        for (L x : v) { x = fabsl(x); if (x > 0 && x < INFL) { d.insert(x); } }
        if (between && i + 1 < base.size()) d.insert((c + base[i+1]) / 2);
    }
    return std::vector<L>(d.begin(), d.end());
}
static void load_literals(const char* path)
{
    g_lits = lits_file(path, true);
    g_novel = lits_file((std::string(path) + ".novel").c_str(), false);
}

// A positive value in [lo,hi] from a deliberately uneven mixture.
static L mixv(Rng& r, L lo, L hi, int t)
{
    for (int tries = 0; tries < 50; ++tries) {
        L x; int m = (int)r.below(100); const bool nov = !g_novel.empty() && r.p(0.15);
        L llo = lo > 0 ? lo : MINN[t];
        if (nov) {
            size_t a = std::lower_bound(g_novel.begin(), g_novel.end(), lo) - g_novel.begin(), b = std::upper_bound(g_novel.begin(), g_novel.end(), hi) - g_novel.begin();
            if (a >= b) continue;
            x = g_novel[a + r.below(b - a)]; const L w = r.sign() * expl(r.uni(-40, -1));
            switch (r.below(4)) { case 0: break; case 1: x = stepu(rnd(x,t), t, (int)r.below(9) - 4); break; default: x *= 1 + w; }
        }
        else if (m < 34) x = expl(r.uni(logl(llo), logl(hi)));
        else if (m < 52) x = r.uni(lo, hi);
        else if (m < 70 && !g_lits.empty()) {
            size_t a = std::lower_bound(g_lits.begin(), g_lits.end(), lo) - g_lits.begin(), b = std::upper_bound(g_lits.begin(), g_lits.end(), hi) - g_lits.begin();
            if (a >= b) continue;
            x = g_lits[a + r.below(b - a)];
            switch (r.below(6)) { case 0: break; case 1: x = stepu(rnd(x,t), t, (int)r.below(9) - 4); break; case 2: x *= 1 + r.uni(-1e-9L,1e-9L); break;
                                  case 3: x *= 1 + r.uni(-1e-6L,1e-6L); break; case 4: x *= 1 + r.uni(-1e-3L,1e-3L); break; default: x *= 1 + r.uni(-0.05L,0.05L); }
        }
        else if (m < 80) { static const L den[] = { 1, 1, 1, 2, 4, 8, 10, 3, 100 }; L q = den[r.below(9)]; L top = std::min(hi, (L)(r.p(0.5) ? 64 : 4096)); if (top < lo) top = hi; x = floorl(r.uni(lo, top) * q + 0.5L) / q; }
        else if (m < 90) { x = r.p(0.5) ? exp2l(roundl(r.uni(log2l(llo), log2l(hi)))) : powl(10, roundl(r.uni(log10l(llo), log10l(hi)))); x = stepu(rnd(x,t), t, (int)r.below(17) - 8); }
        else if (m < 95) { x = hi - (hi - lo) * expl(r.uni(-45, 0)); }
        else             { x = lo + (hi - lo) * expl(r.uni(-45, 0)); }
        x = rnd(x, t);
        if (x >= lo && x <= hi) return x;
    }
    return rnd(r.uni(lo, hi), t);
}

static L anybits(Rng& r, int t)            // any floating-point value at all
{
    if (t == 0) { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); return f; }
    if (t == 1) { uint64_t b = r.next(); double f; memcpy(&f, &b, 8); return f; }
    uint64_t m = r.next() | 0x8000000000000000ull; uint16_t e = (uint16_t)r.next();
    if ((e & 0x7fff) == 0x7fff) m = r.p(0.5) ? 0x8000000000000000ull : 0xC000000000000000ull;
    if ((e & 0x7fff) == 0) m &= 0x7fffffffffffffffull;
    L f = 0; unsigned char b[16] = {0}; memcpy(b, &m, 8); memcpy(b + 8, &e, 2); memcpy(&f, b, 16); return f;
}

static std::vector<L> specials(int t)
{
    const L pi = 3.14159265358979323846264338327950288L;
    std::vector<L> v = { 0.0L, -0.0L, INFL, -INFL, NANL, 1, -1, 2, -2, 0.5L, -0.5L, 1.5L, -1.5L, 10, -10, 100, -100, 1000, -1000, 3, -3, 0.1L, -0.1L,
        MINN[t], -MINN[t], DENM[t], -DENM[t], MAXV[t], -MAXV[t], MINN[t]/2, -MINN[t]/2, EPS[t], -EPS[t], 1+EPS[t], 1-EPS[t]/2, -1-EPS[t], -1+EPS[t]/2,
        rnd(pi,t), rnd(-pi,t), rnd(pi/2,t), rnd(-pi/2,t), 2147483647.0L, 2147483648.0L, -2147483648.0L, 4294967296.0L, 9223372036854775807.0L, 9223372036854775808.0L, -9223372036854775808.0L,
        18446744073709551616.0L, -18446744073709551616.0L, 8388607.5L, 8388608.0L, 4503599627370496.0L, 4503599627370495.5L, 1e10L, -1e10L, 1e20L, -1e20L, 1e38L, -1e38L, 1e-38L, 1e-20L, -1e-20L,
        88.7L, 89, -87.3L, -103.9L, -104, 709.7L, 710, -708, -745, -746, 11356, 11357, -11355, -11400, 171, 172, -171.5L, 35, 36, 1755, 1756 };
    if (t > 0) for (L x : { 1e100L, -1e100L, 1e150L, 1e160L, -1e160L, 1e300L, -1e300L, 1e-100L, 1e-160L, 1e-300L, -1e-300L }) v.push_back(x);
    if (t > 1) for (L x : { 1e1000L, -1e1000L, 1e4900L, -1e4900L, 1e-1000L, 1e-4900L }) v.push_back(x);
    for (L& x : v) x = rnd(x, t);
    return v;
}

// ---------------------------------------------------------------- the system under test
struct Variant {
    std::string name; void* h = nullptr;
    std::map<std::string, SutEntry> fn[3], fni[3];      // fni: integral arguments
    void (*set_ub)(void (*)(const char*, const char*, unsigned)) = nullptr;
    void (*prof_reset)() = nullptr;
    void (*prof_get)(unsigned long long*, unsigned long long*, long*) = nullptr;
    void (*prof_limit)(unsigned long long, long, void (*)(int)) = nullptr;
};
static std::vector<Variant> g_var;

static bool load_variant(const std::string& spec)   // name=path
{
    size_t k = spec.find('=');
    Variant v; v.name = spec.substr(0, k);
    v.h = dlopen(spec.substr(k + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!v.h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
    auto ent = (const SutEntry* (*)(int*))dlsym(v.h, "sut_entries");
    if (!ent) return false;
    int n = 0; const SutEntry* e = ent(&n);
    for (int i = 0; i < n; ++i) v.fn[e[i].type][e[i].name] = e[i];
    if (auto ient = (const SutEntry* (*)(int*))dlsym(v.h, "sut_int_entries")) { e = ient(&n); for (int i = 0; i < n; ++i) v.fni[e[i].type][e[i].name] = e[i]; }
    *(void**)&v.set_ub = dlsym(v.h, "rt_set_ub_sink");
    *(void**)&v.prof_reset = dlsym(v.h, "rt_prof_reset");
    *(void**)&v.prof_get = dlsym(v.h, "rt_prof_get");
    *(void**)&v.prof_limit = dlsym(v.h, "rt_prof_limit");
    g_var.push_back(v);
    return true;
}

static unsigned g_ubn = 0; static std::string g_ubwhat;
static void ub_sink(const char* kind, const char* file, unsigned line) { if (!g_ubn++) { const char* b = file ? strrchr(file, '/') : nullptr; g_ubwhat = std::string(kind) + " at " + (b ? b + 1 : file ? file : "?") + ":" + std::to_string(line); } }
static L raw_call(const SutEntry& e, const L* a)
{
    if (e.lastint == 2) return ((SutIntFn)e.fn)((long long)a[0], (long long)a[1]);
    if (e.lastint) {
        if (e.type == 0) return ((float (*)(float, int))e.fn)((float)a[0], (int)a[1]);
        if (e.type == 1) return ((double (*)(double, int))e.fn)((double)a[0], (int)a[1]);
        return ((L (*)(L, int))e.fn)(a[0], (int)a[1]);
    }
    switch (e.arity * 3 + e.type) {
        case 3: return ((float (*)(float))e.fn)((float)a[0]);
        case 4: return ((double (*)(double))e.fn)((double)a[0]);
        case 5: return ((L (*)(L))e.fn)(a[0]);
        case 6: return ((float (*)(float, float))e.fn)((float)a[0], (float)a[1]);
        case 7: return ((double (*)(double, double))e.fn)((double)a[0], (double)a[1]);
        case 8: return ((L (*)(L, L))e.fn)(a[0], a[1]);
        case 9: return ((float (*)(float, float, float))e.fn)((float)a[0], (float)a[1], (float)a[2]);
        case 10: return ((double (*)(double, double, double))e.fn)((double)a[0], (double)a[1], (double)a[2]);
        default: return ((L (*)(L, L, L))e.fn)(a[0], a[1], a[2]);
    }
}

// Guarded call: a fatal signal or a call that never returns becomes an observation, not the end of the run.
static sigjmp_buf g_jb;
static volatile sig_atomic_t g_armed = 0, g_ticks = 0;
static int g_hang_ticks = 20;
static volatile uint64_t g_serial = 0, g_tick_serial = 0;
static void on_fatal(int s) { if (g_armed) { g_armed = 0; siglongjmp(g_jb, s); } signal(s, SIG_DFL); raise(s); }
static void on_tick(int) { if (!g_armed) return; if (g_tick_serial == g_serial) { if (++g_ticks > g_hang_ticks) { g_armed = 0; siglongjmp(g_jb, SIGVTALRM); } } else { g_tick_serial = g_serial; g_ticks = 0; } }
static void over_limit(int what) { if (g_armed) { g_armed = 0; siglongjmp(g_jb, 1000 + what); } }
static void install_guards()
{
    stack_t st; memset(&st, 0, sizeof st); st.ss_size = 1 << 16; st.ss_sp = malloc(st.ss_size); sigaltstack(&st, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_ONSTACK | SA_NODEFER; sa.sa_handler = on_fatal;
    for (int s : { SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGTRAP }) sigaction(s, &sa, 0);
    sa.sa_handler = on_tick; sa.sa_flags = SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it = { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
}
static L gcall(const SutEntry& e, const L* a, int& outcome)   // outcome 0: returned
{
    ++g_serial;
    volatile L res = NANL;
    int s = sigsetjmp(g_jb, 0);
    if (s == 0) { g_armed = 1; res = raw_call(e, a); g_armed = 0; outcome = 0; }
    else { outcome = s; res = NANL; }
    return res;
}
static const char* outcome_name(int o)
{
    switch (o) { case SIGSEGV: return "SIGSEGV (stack exhaustion or wild access)"; case SIGFPE: return "SIGFPE"; case SIGVTALRM: return "no return within 10 s of CPU time";
        case SIGILL: return "SIGILL"; case SIGABRT: return "SIGABRT"; case 1001: return "nesting limit exceeded"; case 1002: return "work limit exceeded"; default: return "signal"; }
}

// ---------------------------------------------------------------- reporting
static FILE* g_out = stdout;
static uint64_t g_eval = 0, g_viol = 0;
static std::unordered_set<uint64_t> g_distinct;
static std::map<std::string, uint64_t> g_count;       // observations by kind
static std::map<std::string, std::pair<double, std::string>> g_worst;
static std::vector<std::string> g_samples;
static int g_sample_every = 9973;

static std::string num(L x) { char b[96]; if (x != x) return "nan"; snprintf(b, sizeof b, "%La (%.20Lg)", x, x); return b; }
static std::string argstr(const L* a, int n) { std::string s; for (int i = 0; i < n; ++i) { if (i) s += ", "; s += num(a[i]); } return s; }
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

static void finish();
static void violation(const char* fn, int t, const L* a, int n, const std::string& variant, const std::string& what)
{
    ++g_viol;
    std::string hx; for (int i = 0; i < n; ++i) { char b[64]; snprintf(b, sizeof b, "%s%La", i ? " " : "", a[i]); hx += b; }
    fprintf(g_out, "{\"kind\":\"violation\",\"fn\":\"%s\",\"type\":\"%c\",\"args\":\"%s\",\"variant\":\"%s\",\"what\":\"%s\"}\n", fn, TC[t], hx.c_str(), jesc(variant).c_str(), jesc(what).c_str());
    fflush(g_out);
    static int hangs = 0; if (what.find("no return within") != std::string::npos) ++hangs;
    if (g_viol >= 40 || hangs >= 2) { finish(); _exit(0); }       // seen enough
}
static void seen(const char* fn, int t, const L* a, int n)
{
    uint64_t h = 1469598103934665603ull; auto mixb = [&](const void* p, size_t k) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < k; ++i) { h ^= c[i]; h *= 1099511628211ull; } };
    mixb(fn, strlen(fn)); mixb(&t, sizeof t); for (int i = 0; i < n; ++i) mixb(&a[i], 10);
    if (g_distinct.size() < 40000000) g_distinct.insert(h);
}
static void sample(const std::string& s) { if (g_samples.size() < 12) g_samples.push_back(s); }
static std::string g_hashes;          // file for the hashes of the distinct cases
static void finish()
{
    if (!g_hashes.empty()) if (FILE* f = fopen(g_hashes.c_str(), "wb")) { for (uint64_t h : g_distinct) fwrite(&h, 8, 1, f); fclose(f); }
    fprintf(g_out, "{\"kind\":\"summary\",\"evaluations\":%llu,\"distinct\":%llu,\"violations\":%llu,\"counts\":{", (unsigned long long)g_eval, (unsigned long long)g_distinct.size(), (unsigned long long)g_viol);
    bool c = false; for (auto& k : g_count) { fprintf(g_out, "%s\"%s\":%llu", c ? "," : "", jesc(k.first).c_str(), (unsigned long long)k.second); c = true; }
    fprintf(g_out, "},\"worst\":{"); c = false;
    for (auto& k : g_worst) { fprintf(g_out, "%s\"%s\":[%.4g,\"%s\"]", c ? "," : "", jesc(k.first).c_str(), k.second.first < 1e300 ? k.second.first : 1e300, jesc(k.second.second).c_str()); c = true; }
    fprintf(g_out, "},\"samples\":["); c = false;
    for (auto& s : g_samples) { fprintf(g_out, "%s\"%s\"", c ? "," : "", jesc(s).c_str()); c = true; }
    fprintf(g_out, "]}\n"); fflush(g_out);
}
