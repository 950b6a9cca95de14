#ifndef SUT_H
#define SUT_H
struct SutEntry { const char* name; int type; int arity; int lastint; void* fn; };
// false: the exact result of a binomial coefficient of floating-point arguments is (far) beyond the types
static inline int sut_in_scope(const char* fn, const long double* a) { if (fn[0] != 'b' || fn[1] != 'i') return 1; const long double n = a[0], k = a[1]; return !(k > 60 && n - k > 60); }
// calls with integral arguments: type 0 int, 1 long long, 2 unsigned long long
typedef long double (*SutIntFn)(long long, long long);
// arguments in the type whose exact result is representable in it; nx(st) gives 64 random bits
static inline void sut_int_args(const char* fn, int t, unsigned long long (*nx)(void*), void* st, long long* a)
{
    const long long mx = t == 0 ? 2147483647LL : 9223372036854775807LL; const bool uns = t == 2;
    for (int i = 0; i < 2; ++i) {
        unsigned long long r = nx(st) % 5; long long v;
        v = r == 0 ? (long long)(nx(st) % 41) - 20 : r == 1 ? (long long)(nx(st) % 4001) - 2000 : r == 2 ? (long long)((nx(st) & (unsigned long long)mx) >> (nx(st) % (t == 0 ? 31 : 63))) : r == 3 ? mx - (long long)(nx(st) % 4) : (1LL << (nx(st) % (t == 0 ? 31 : 63))) - 1 + (long long)(nx(st) % 2);
        if (v > mx) v = mx; if (r > 1 && nx(st) & 1) v = -v; if (uns && v < 0) v = -v;
        a[i] = v;
    }
    const char c = fn[0], d = fn[1]; unsigned long long r = nx(st) % 4;
    if (c == 'l' && d == 'c') {
        if (r) { const long long m = t == 0 ? 40000 : 3000000000LL; a[0] %= m; a[1] %= m; }
        else { const int w = t == 0 ? 31 : 63, i = 1 + (int)(nx(st) % (unsigned)(w - 3)), j = 1 + (int)(nx(st) % (unsigned)(w - i - 1)), k = w - i - j;   // common factor, cofactors: the least common multiple fits, the product does not
            long long g = (long long)(nx(st) >> (64 - i)) | 1, p = (long long)(nx(st) >> (64 - j)) | 1, q = (long long)(nx(st) >> (64 - k)) | 1; a[0] = (!uns && nx(st) & 1) ? -g * p : g * p; a[1] = (!uns && nx(st) & 1) ? -g * q : g * q; } }                                  // lcm
    else if (c == 'b' && d == 'i') { long long n = r ? (long long)(nx(st) % (t == 0 ? 30 : 61)) : (a[0] < 0 ? -a[0] : a[0]), k = r ? (long long)(nx(st) % (unsigned long long)(n + 3)) : (r = nx(st) % 4, r == 0 ? 0 : r == 1 ? 1 : r == 2 ? n : n > 0 ? n - 1 : 0); a[0] = n; a[1] = k; }
    else if (c == 'f' && d == 'a') a[0] = (long long)(nx(st) % (t == 0 ? 13 : 21));                                                       // factorial
    else if (c == 'p') { if (r) { a[0] = (long long)(nx(st) % 17) - (uns ? 0 : 8); a[1] = (long long)(nx(st) % (t == 0 ? 8 : 16)); } else { a[0] = (long long)(nx(st) % (uns ? 2 : 3)) - (uns ? 0 : 1); if (a[1] < 0) a[1] = -a[1]; } }
    else if (c == 't' && d == 'g') a[0] = (long long)(nx(st) % 170) + 1;                                                                  // tgamma
    else if ((c == 'b' || (c == 'l' && d == 'b')) && r) { a[0] = (long long)(nx(st) % 200) + 1; a[1] = (long long)(nx(st) % 200) + 1; }      // beta, lbeta
}
#endif
