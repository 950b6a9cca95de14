// C26: stand-ins for the C library's mathematics, allocation and error interfaces, linked into the system under test:
// a call that reaches one of them is reported to the monitor's sink.
typedef void (*sink_t)(const char* kind, const char* file, unsigned line);
static sink_t g_sink = 0;
extern "C" void rt_set_ub_sink(sink_t s) { g_sink = s; }
static void ev(const char* k) { if (g_sink) g_sink(k, "", 0); }
extern "C" void rt_external(const char* k) { ev(k); }
static int g_errno;
extern "C" {
#define S1(f) double f(double) { ev("call of the C library function " #f); return 0; } float f##f(float) { ev("call of the C library function " #f "f"); return 0; } long double f##l(long double) { ev("call of the C library function " #f "l"); return 0; }
#define S2(f) double f(double, double) { ev("call of the C library function " #f); return 0; } float f##f(float, float) { ev("call of the C library function " #f "f"); return 0; } long double f##l(long double, long double) { ev("call of the C library function " #f "l"); return 0; }
S1(sin) S1(cos) S1(tan) S1(asin) S1(acos) S1(atan) S1(sinh) S1(cosh) S1(tanh) S1(asinh) S1(acosh) S1(atanh) S1(exp) S1(exp2) S1(expm1) S1(log) S1(log2) S1(log10) S1(log1p) S1(sqrt) S1(cbrt) S1(erf) S1(erfc) S1(lgamma) S1(tgamma) S1(floor) S1(ceil) S1(trunc) S1(round) S1(rint) S1(nearbyint) S1(logb) S1(fabs)
S2(pow) S2(fmod) S2(hypot) S2(atan2) S2(copysign) S2(fmax) S2(fmin) S2(remainder) S2(fdim) S2(nextafter)
double ldexp(double, int) { ev("call of the C library function ldexp"); return 0; } float ldexpf(float, int) { ev("call of the C library function ldexpf"); return 0; } long double ldexpl(long double, int) { ev("call of the C library function ldexpl"); return 0; }
double frexp(double, int*) { ev("call of the C library function frexp"); return 0; } float frexpf(float, int*) { ev("call of the C library function frexpf"); return 0; } long double frexpl(long double, int*) { ev("call of the C library function frexpl"); return 0; }
double modf(double, double*) { ev("call of the C library function modf"); return 0; } float modff(float, float*) { ev("call of the C library function modff"); return 0; } long double modfl(long double, long double*) { ev("call of the C library function modfl"); return 0; }
double scalbn(double, int) { ev("call of the C library function scalbn"); return 0; } int abs(int) { ev("call of the C library function abs"); return 0; } long labs(long) { ev("call of the C library function labs"); return 0; }
int ilogb(double) { ev("call of the C library function ilogb"); return 0; }
void* malloc(unsigned long) { ev("allocation: malloc"); return 0; } void* calloc(unsigned long, unsigned long) { ev("allocation: calloc"); return 0; } void* realloc(void*, unsigned long) { ev("allocation: realloc"); return 0; } void free(void*) { ev("allocation: free"); }
int* __errno_location() { ev("access to errno"); return &g_errno; } int rand() { ev("call of rand"); return 0; } long time(long*) { ev("call of time"); return 0; }
int printf(const char*, ...) { ev("call of printf"); return 0; } void abort() { ev("call of abort"); __builtin_trap(); } int fesetround(int) { ev("call of fesetround"); return 0; }
void* _Znwm(unsigned long) { ev("allocation: operator new"); static char b[4096]; return b; } void _ZdlPv(void*) { ev("allocation: operator delete"); } void _ZdlPvm(void*, unsigned long) { ev("allocation: operator delete"); }
void __cxa_throw(void*, void*, void*) { ev("an exception is thrown"); __builtin_trap(); }
}
