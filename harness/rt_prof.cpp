// Work and nesting monitor: the system under test is compiled with -finstrument-functions and
// -fsanitize-coverage=trace-pc; these hooks count, per call of a public function, the calls made, the
// nesting reached and the basic blocks executed, and break off a call that exceeds a limit.
typedef void (*over_t)(int what);
static over_t g_over = 0;
static unsigned long long g_calls, g_blocks, g_max_calls = ~0ull, g_max_blocks = ~0ull;
static long g_depth, g_maxdepth, g_lim_depth = 1L << 60;
extern "C" {
__attribute__((no_instrument_function)) void rt_prof_reset() { g_calls = g_blocks = 0; g_depth = g_maxdepth = 0; }
__attribute__((no_instrument_function)) void rt_prof_get(unsigned long long* calls, unsigned long long* blocks, long* depth)
{ *calls = g_calls; *blocks = g_blocks; *depth = g_maxdepth; }
__attribute__((no_instrument_function)) void rt_prof_limit(unsigned long long blocks, long depth, over_t f)
{ g_max_blocks = blocks; g_lim_depth = depth; g_over = f; }
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*)
{
    ++g_calls;
    if (++g_depth > g_maxdepth) { g_maxdepth = g_depth; if (g_maxdepth > g_lim_depth && g_over) g_over(1); }
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) { --g_depth; }
__attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc() { if (++g_blocks > g_max_blocks && g_over) g_over(2); }
}
