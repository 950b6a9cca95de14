// C25 (and the MemorySanitizer/AddressSanitizer runs of C04): every public function evaluated over one list of cases,
// in several orders and from several threads at once.  Checks: the same bits for the same arguments whatever was
// evaluated before and whatever runs at the same time; errno, rounding mode and control word untouched; results fully
// initialised (MSan).  Races are reported by ThreadSanitizer.  No C++ library is used, so that MSan sees everything.
#include <errno.h>
#include <fenv.h>
#include <float.h>
#include <math.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <xmmintrin.h>
#include "sut.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
extern "C" const SutEntry* sut_entries(int* n);
extern "C" const SutEntry* sut_int_entries(int* n);
typedef long double L;
struct Case { const SutEntry* e; L a[3]; L r; };
static Case* g_cs; static long g_n; static unsigned long long g_evals, g_viol; static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;

static uint64_t rn(uint64_t* s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static L u(uint64_t* s) { return (L)(rn(s) >> 1) / 9223372036854775808.0L; }
static L rnd(L x, int t) { return t == 0 ? (L)(float)x : t == 1 ? (L)(double)x : x; }
static L call(const SutEntry* e, const L* a)
{
    if (e->lastint == 2) return ((SutIntFn)e->fn)((long long)a[0], (long long)a[1]);
    if (e->lastint) { if (e->type == 0) return ((float (*)(float, int))e->fn)((float)a[0], (int)a[1]); if (e->type == 1) return ((double (*)(double, int))e->fn)((double)a[0], (int)a[1]); return ((L (*)(L, int))e->fn)(a[0], (int)a[1]); }
    switch (e->arity * 3 + e->type) {
        case 3: return ((float (*)(float))e->fn)((float)a[0]); case 4: return ((double (*)(double))e->fn)((double)a[0]); case 5: return ((L (*)(L))e->fn)(a[0]);
        case 6: return ((float (*)(float, float))e->fn)((float)a[0], (float)a[1]); case 7: return ((double (*)(double, double))e->fn)((double)a[0], (double)a[1]); case 8: return ((L (*)(L, L))e->fn)(a[0], a[1]);
        case 9: return ((float (*)(float, float, float))e->fn)((float)a[0], (float)a[1], (float)a[2]); case 10: return ((double (*)(double, double, double))e->fn)((double)a[0], (double)a[1], (double)a[2]); default: return ((L (*)(L, L, L))e->fn)(a[0], a[1], a[2]);
    }
}
static int same(L a, L b) { if (a != a || b != b) return a != a && b != b; return a == b && __builtin_signbit(a) == __builtin_signbit(b); }
static void viol(const Case* c, const char* what, L got, L want)
{
    pthread_mutex_lock(&g_mx); if (++g_viol <= 30) { printf("VIOL %s<%s>(%La, %La, %La): %s", c->e->name, c->e->lastint == 2 ? "integers" : c->e->type == 0 ? "float" : c->e->type == 1 ? "double" : "long double", c->a[0], c->a[1], c->a[2], what); if (got == got || want == want) printf(" (%La, %La)", got, want); printf("\n"); fflush(stdout); } pthread_mutex_unlock(&g_mx);
}
static L watched(const Case* c)
{
    errno = 4242; int rm = fegetround(); unsigned cs = _mm_getcsr() & ~0x3fu; unsigned short cw = 0, cw2 = 0; __asm__ volatile("fnstcw %0" : "+m"(cw));
    L r = call(c->e, c->a);
    __asm__ volatile("fnstcw %0" : "+m"(cw2));
    if (errno != 4242) viol(c, "errno was written", NAN, NAN);
    if (fegetround() != rm || (_mm_getcsr() & ~0x3fu) != cs || cw != cw2) viol(c, "the floating-point environment was changed", NAN, NAN);
#ifdef MSAN
    if (__msan_test_shadow(&r, 10) != -1) { __msan_unpoison(&r, sizeof r); viol(c, "the result depends on uninitialised memory", NAN, NAN); }
#endif
    return r;
}
static L* g_lit; static long g_nlit; static L g_nov[256]; static long g_nnov;      // literals of the headers; those that differ from the recorded headers
static unsigned long long bits64(void* s) { return rn((uint64_t*)s); }
static L gen(uint64_t* s, int t, int k)
{
    const uint64_t how = rn(s) % 10;
    if (how == 0 && g_nlit) { L c = g_lit[rn(s) % (uint64_t)g_nlit]; c *= rn(s) & 1 ? 1 : 1 + (u(s) - 0.5L) * 0.1L; return rnd(rn(s) % 3 ? c : -c, t); }     // next to a literal of the headers
    if (g_nnov && rn(s) % 6 == 0) { L c = g_nov[rn(s) % (uint64_t)g_nnov]; c *= rn(s) & 1 ? 1 : 1 + (u(s) - 0.5L) * 0.1L; return rnd(rn(s) % 3 ? c : -c, t); }
    if (how == 1) { L m = (u(s) - 0.5L) * 2 * (t == 0 ? 86 : t == 1 ? 706 : 11300); return rnd(rn(s) & 1 ? expl(m) : -expl(m), t); }                              // any magnitude
    static const L sp[] = { 0, 1, -1, 2, 0.5L, -0.5L, 10, 100, 1e10L, -1e10L, 3.14159265358979323846L, 1e-10L, 1e30L, -1e30L };
    switch (rn(s) % 8) {
        case 0: return rnd(sp[rn(s) % 14], t); case 1: return (L)(rn(s) % 60) - 10; case 2: return rnd(u(s), t); case 3: return rnd(u(s) * 2 - 1, t); case 4: return rnd((u(s) - 0.3L) * 40, t);
        case 5: return rnd(expl((u(s) - 0.5L) * 20), t); case 6: return rnd(u(s) * (k == 2 ? 1 : 150), t); default: if (rn(s) % 6 == 0) return rn(s) & 1 ? INFINITY : -INFINITY; return rnd(expl((u(s) - 0.5L) * 120), t);
    }
}
struct Th { int id; int rounds; uint64_t seed; pthread_barrier_t* b; unsigned long long n; };
static void* worker(void* p)
{
    Th* th = (Th*)p; uint64_t s = th->seed * 131 + (uint64_t)th->id; long* ix = (long*)malloc(sizeof(long) * (size_t)g_n); for (long i = 0; i < g_n; ++i) ix[i] = i;
    for (int r = 0; r < th->rounds; ++r) {
        if (r % 2 == 0) for (long i = g_n - 1; i > 0; --i) { long j = (long)(rn(&s) % (uint64_t)(i + 1)); long q = ix[i]; ix[i] = ix[j]; ix[j] = q; }
        pthread_barrier_wait(th->b);       // half of the rounds: everyone on the same case at about the same time
        for (long i = 0; i < g_n; ++i) { const Case* c = &g_cs[r % 2 == 0 ? ix[i] : i]; L v = watched(c); ++th->n; if (!same(v, c->r)) viol(c, "another result than in the sequential run", v, c->r); }
    }
    free(ix); return 0;
}
int main(int argc, char** argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) * 77 + 5 : 1; long per = argc > 2 ? atol(argv[2]) : 10; int nt = argc > 3 ? atoi(argv[3]) : 4, rounds = argc > 4 ? atoi(argv[4]) : 2;
    if (argc > 5) if (FILE* f = fopen(argv[5], "r")) { char b[128]; g_lit = (L*)calloc(4096, sizeof(L)); while (g_nlit < 4096 && fgets(b, sizeof b, f)) g_lit[g_nlit++] = strtold(b, 0); fclose(f); }
    if (argc > 5) { char pth[4096]; snprintf(pth, sizeof pth, "%s.novel", argv[5]); if (FILE* f = fopen(pth, "r")) { char b[128]; while (g_nnov < 256 && fgets(b, sizeof b, f)) g_nov[g_nnov++] = strtold(b, 0); fclose(f); } }
    int n, ni; const SutEntry* e = sut_entries(&n); const SutEntry* ei = sut_int_entries(&ni); g_cs = (Case*)calloc((size_t)((n + ni) * (per + 4)), sizeof(Case));
    // entries come in groups of three (float, double, long double): families of cases share their arguments across the types
    for (int i = 0; i + 2 < n; i += 3) {
        int heavy = !strncmp(e[i].name, "incomplete", 10) || !strcmp(e[i].name, "lmgamma") || !strcmp(e[i].name, "erf_inv"); long k = heavy ? (per + 3) / 4 : per;
        for (long j = 0; j < k; ++j) {
            L base[3]; int ref = -1;
            for (int t = 0; t < 3; ++t) {
                Case* c = &g_cs[g_n]; c->e = &e[i + t]; const uint64_t how = rn(&seed) % 8;
                for (int m = 0; m < e[i].arity; ++m) c->a[m] = gen(&seed, e[i + t].type, m);
                if (ref >= 0 && how < 3) for (int m = 0; m < e[i].arity; ++m) c->a[m] = rnd(base[m], e[i + t].type);                                 // the same values in another type
                if (j > 0 && how >= 3 && how < 6 && g_cs[g_n - 3].e == c->e) {                                                                      // close to the previous case of this function
                    const int m = (int)(rn(&seed) % (uint64_t)e[i].arity); for (int q = 0; q < e[i].arity; ++q) c->a[q] = g_cs[g_n - 3].a[q]; L x = c->a[m];
                    switch (rn(&seed) % 6) { case 0: x = t == 0 ? (L)nextafterf((float)x, INFINITY) : t == 1 ? (L)nextafter((double)x, INFINITY) : nextafterl(x, INFINITY); break; case 1: x = -x; break; case 2: x = floorl(x) + u(&seed); break; case 3: x *= 1 + 1e-5L; break; case 4: x = x * 2; break; default: if (e[i].arity > 1) { x = c->a[m ? 0 : 1]; c->a[m ? 0 : 1] = c->a[m]; } }
                    c->a[m] = rnd(x, t);
                }
                if (e[i].lastint) c->a[1] = (L)(int)(rn(&seed) % (heavy ? 12 : 60)) - (heavy ? 1 : 20);
                if ((!strcmp(e[i].name, "tgamma") || !strcmp(e[i].name, "factorial")) && c->a[0] < -100) c->a[0] = -c->a[0];
                if (!e[i].lastint && (!strcmp(e[i].name, "gcd") || !strcmp(e[i].name, "lcm") || !strcmp(e[i].name, "binomial_coef"))) { if (how != 7) for (int m = 0; m < 2; ++m) c->a[m] = rnd(floorl(c->a[m]), t); if (!sut_in_scope(e[i].name, c->a)) c->a[1] = c->a[1] - 60 * floorl(c->a[1] / 60); }
                for (int m = 0; m < 3; ++m) base[m] = c->a[m];
                ref = t; ++g_n;
            }
        }
    }
    for (int i = 0; i < ni; ++i) for (long j = 0; j < per / 2; ++j) { Case* c = &g_cs[g_n++]; c->e = &ei[i]; long long q[2]; sut_int_args(ei[i].name, ei[i].type, bits64, &seed, q); c->a[0] = q[0]; c->a[1] = q[1]; }
    for (long i = 0; i < g_n; ++i) { g_cs[i].r = watched(&g_cs[i]); ++g_evals; }
    for (long i = g_n - 1; i >= 0; --i) { L v = watched(&g_cs[i]); ++g_evals; if (!same(v, g_cs[i].r)) viol(&g_cs[i], "another result in the reverse order", v, g_cs[i].r); }
    for (long i = 0; i < g_n; ++i) { long j = (long)(rn(&seed) % (uint64_t)g_n); L v = watched(&g_cs[j]); L w = watched(&g_cs[j]); g_evals += 2; if (!same(v, g_cs[j].r) || !same(w, v)) viol(&g_cs[j], "another result when repeated", w, g_cs[j].r); }
    unsigned long long conc = 0;
    if (nt > 0) {
        pthread_t* t = (pthread_t*)malloc(sizeof(pthread_t) * (size_t)nt); Th* th = (Th*)calloc((size_t)nt, sizeof(Th)); pthread_barrier_t b; pthread_barrier_init(&b, 0, (unsigned)nt);
        for (int i = 0; i < nt; ++i) { th[i].id = i; th[i].rounds = rounds; th[i].seed = seed; th[i].b = &b; pthread_create(&t[i], 0, worker, &th[i]); }
        for (int i = 0; i < nt; ++i) { pthread_join(t[i], 0); conc += th[i].n; }
    }
    for (int i = 0; i < 3; ++i) { const Case* c = &g_cs[(long)(rn(&seed) % (uint64_t)g_n)]; printf("SAMPLE %s type %d (%La, %La, %La) = %La\n", c->e->name, c->e->type, c->a[0], c->a[1], c->a[2], c->r); }
    printf("DONE %llu %ld %llu\n", g_evals, g_n, conc);
    return 0;
}
