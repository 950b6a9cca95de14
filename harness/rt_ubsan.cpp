// Monitor-owned UBSan runtime: instead of libubsan, the instrumented system under test reports every
// undefined operation here, so that the monitor can tie the event to the call being made.
// Built without instrumentation and linked into the instrumented shared object.
typedef void (*sink_t)(const char* kind, const char* file, unsigned line);
static sink_t g_sink = 0;
extern "C" void rt_set_ub_sink(sink_t s) { g_sink = s; }

struct Loc { const char* file; unsigned line, col; };
static void ev(const char* kind, void* data)
{
    Loc* l = (Loc*)data;
    if (g_sink) g_sink(kind, l && l->file ? l->file : "?", l ? l->line : 0);
}
#define H(name) \
    extern "C" void __ubsan_handle_##name(void* d) { ev(#name, d); } \
    extern "C" void __ubsan_handle_##name##_abort(void* d) { ev(#name, d); }
H(add_overflow) H(sub_overflow) H(mul_overflow) H(negate_overflow) H(divrem_overflow)
H(shift_out_of_bounds) H(out_of_bounds) H(missing_return) H(vla_bound_not_positive)
H(float_cast_overflow) H(load_invalid_value) H(invalid_builtin) H(type_mismatch_v1)
H(alignment_assumption) H(nonnull_arg) H(nullability_arg) H(pointer_overflow)
H(function_type_mismatch) H(function_type_mismatch_v1) H(implicit_conversion)
extern "C" void __ubsan_handle_builtin_unreachable(void* d) { ev("builtin_unreachable", d); __builtin_trap(); }
extern "C" void __ubsan_handle_nonnull_return_v1(void*, void* l) { ev("nonnull_return", l); }
