#include <cstdio>
#define D(k) extern "C" int conf_results_##k(long double*); extern "C" int conf_constants_##k(long double*); extern "C" const void* conf_address_##k(int);
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)
static int (*res[])(long double*) = { conf_results_0, conf_results_1, conf_results_2, conf_results_3, conf_results_4, conf_results_5, conf_results_6, conf_results_7 };
static int (*con[])(long double*) = { conf_constants_0, conf_constants_1, conf_constants_2, conf_constants_3, conf_constants_4, conf_constants_5, conf_constants_6, conf_constants_7 };
static const void* (*adr[])(int) = { conf_address_0, conf_address_1, conf_address_2, conf_address_3, conf_address_4, conf_address_5, conf_address_6, conf_address_7 };
static bool same(long double a, long double b) { return a != a ? b != b : a == b && __builtin_signbit(a) == __builtin_signbit(b); }
int main()
{
    static long double a[4096], b[4096]; unsigned long long n = 0; int m = res[0](a);
    for (int k = 1; k < 8; ++k) { int q = res[k](b); for (int i = 0; i < m; ++i) { ++n; if (q != m || !same(a[i], b[i])) std::printf("VIOL inclusion environment %d: result %d is %La, want %La\n", k, i, b[i], a[i]); } }
    m = con[0](a); for (int k = 1; k < 8; ++k) { con[k](b); for (int i = 0; i < m; ++i) { ++n; if (!same(a[i], b[i])) std::printf("VIOL inclusion environment %d: constant %d is %La, want %La\n", k, i, b[i], a[i]); } }
    for (int k = 1; k < 8; ++k) for (int i = 0; i < 3; ++i) { ++n; if (adr[k](i) != adr[0](i)) std::printf("VIOL inclusion environment %d: function %d has another address\n", k, i); }
    std::printf("DONE %llu\n", n); return 0;
}
