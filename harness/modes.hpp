// The other monitors.  Each runs every build variant it was given on a generated workload and checks what it observes.
static std::vector<Spec> g_specs;
static const Spec* find_spec(const std::string& n) { for (auto& s : g_specs) if (n == s.name) return &s; return nullptr; }
static std::vector<L> g_sp[3];

// any arguments at all: the claimed domains, special values, arbitrary bit patterns
static void gen_any(const SutEntry& e, const Spec* sp, Rng& r, int t, L* a)
{
    if (g_sp[t].empty()) g_sp[t] = specials(t);
    int m = (int)r.below(100);
    if (m < 45 && sp) { if (sp->arity == 1) a[0] = gen1(*sp, r, t); else sp->gen(r, t, a); return; }
    if (m < 45 && (!strcmp(e.name, "gcd") || !strcmp(e.name, "lcm") || !strcmp(e.name, "binomial_coef"))) { a[0] = floorl(mixv(r, 1, m < 20 ? 100 : 1e9L, t)); a[1] = m % 3 ? floorl(mixv(r, 1, e.name[0] == 'b' ? 30 : 1e6L, t)) : floorl(a[0] * r.uni(0, 1)); if (r.p(0.1)) a[r.below(2)] *= -1; if (r.p(0.1)) a[0] = rnd(a[0] * exp2l(r.below(60)), t); return; }      // integers
    for (int i = 0; i < e.arity; ++i) {
        int k = m < 65 ? 0 : m < 80 ? 1 : m < 90 ? 2 : m < 96 ? 3 : (int)r.below(4);
        a[i] = k == 0 ? g_sp[t][r.below(g_sp[t].size())] : k == 1 ? anybits(r, t) : k == 2 ? any_pos(r, t) * r.sign() : mixv(r, 0, 200, t) * r.sign();
    }
    if (e.lastint) {
        if (!strcmp(e.name, "lmgamma")) a[1] = (L)((int)r.below(64) - 3);
        else { int k = (int)r.below(6); a[1] = k < 3 ? (L)((int)r.below(41) - 20) : k == 3 ? (L)(int32_t)r.next() : k == 4 ? (L)((int32_t)r.next() >> r.below(31)) : (r.p(0.5) ? 2147483647.0L : -2147483648.0L); }
    }
}
static bool wanted(const Args& A, const std::string& n) { return A.fns.empty() || std::find(A.fns.begin(), A.fns.end(), n) != A.fns.end(); }
static double case_cost(const std::string& n) { return n == "incomplete_beta_inv" || n == "incomplete_gamma_inv" ? 20 : n.compare(0, 10, "incomplete") == 0 ? 6 : n == "erf_inv" ? 8 : 1; }

template<class F> static void for_cases(Args& A, F f0)      // f(name, type, args, arity)
{
    auto f = [&](const SutEntry& e, int t, const L* a) { if (sut_in_scope(e.name, a)) f0(e, t, a); };
    for (int t = 0; t < 3; ++t) for (auto& kv : g_var[0].fn[t]) {
        const SutEntry& e = kv.second; if (!wanted(A, kv.first)) continue;
        const Spec* sp = find_spec(kv.first);
        Rng r(A.seed * 1000003 + A.shard * 7919 + t * 104729 + std::hash<std::string>()(kv.first) + 17);
        if (g_sp[t].empty()) g_sp[t] = specials(t);
        // every special value (pairs of them for two arguments)
        const auto& S = g_sp[t]; size_t idx = 0; L a[3] = { 0, 0, 0 };
        if (e.arity == 1) for (L x : S) { if ((int)(idx++ % A.nsh) == A.shard) { a[0] = x; f(e, t, a); } }
        else if (!e.lastint && e.arity == 2) for (L x : S) for (L y : S) { if ((int)(idx++ % (A.nsh * (uint64_t)(case_cost(kv.first) > 5 ? 8 : 1))) == A.shard) { a[0] = x; a[1] = y; f(e, t, a); } }
        else if (!strcmp(e.name, "powi")) for (L x : S) for (L y : { 0.0L, 1.0L, -1.0L, 2.0L, -2.0L, 3.0L, -3.0L, 5.0L, 17.0L, 64.0L, -64.0L, 1000.0L, -1000.0L, 2147483647.0L, 2147483646.0L, -2147483647.0L, -2147483648.0L }) { if ((int)(idx++ % A.nsh) == A.shard) { a[0] = x; a[1] = y; f(e, t, a); } }
        if (e.arity == 1 && sp) { auto v = systematic(*sp, t); for (size_t i = A.shard; i < v.size(); i += A.nsh * (size_t)(case_cost(kv.first) > 5 ? 8 : 2)) f(e, t, &v[i]); }
        uint64_t n = (uint64_t)(A.budget / A.nsh / case_cost(kv.first));
        for (uint64_t i = 0; i < n; ++i) { a[0] = a[1] = a[2] = 0; gen_any(e, sp, r, t, a); f(e, t, a); }
    }
}
static unsigned long long rng_bits(void* p) { return ((Rng*)p)->next(); }
template<class F> static void for_int_cases(Args& A, F f)      // calls with integral arguments
{
    for (int t = 0; t < 3; ++t) for (auto& kv : g_var[0].fni[t]) {
        const SutEntry& e = kv.second; if (!wanted(A, kv.first)) continue;
        Rng r(A.seed * 1000003 + A.shard * 7919 + t * 104729 + std::hash<std::string>()(kv.first) + 18);
        for (uint64_t i = 0, n = (uint64_t)(A.budget / A.nsh / 4) + 8; i < n; ++i) { long long q[2]; sut_int_args(e.name, t, rng_bits, &r, q); L a[3] = { (L)q[0], (L)q[1], 0 }; f(e, t, a); }
    }
}
static const SutEntry& entry_of(Variant& v, const SutEntry& e, int t) { return e.lastint == 2 ? v.fni[t][e.name] : v.fn[t][e.name]; }
static std::string callstr(const SutEntry& e, int t, const L* a) { return std::string(e.name) + "<" + (e.lastint == 2 ? (t == 0 ? "int" : t == 1 ? "long long" : "unsigned long long") : t == 0 ? "float" : t == 1 ? "double" : "long double") + ">(" + argstr(a, e.arity) + ")"; }

// ---------------------------------------------------------------- C04: undefined behaviour, fatal signals
static int mode_ub(Args& A)
{
    for (auto& v : g_var) if (v.set_ub) v.set_ub(ub_sink);
    auto one = [&](const SutEntry& e0, int t, const L* a) {
        seen(e0.name, t, a, e0.arity);
        for (auto& v : g_var) {
            const SutEntry& e = entry_of(v, e0, t); int oc; g_ubn = 0; L g = gcall(e, a, oc); ++g_eval; ++g_count["calls of " + v.name];
            if (g_ubn) violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + ": " + g_ubwhat);
            if (oc) violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + ": " + outcome_name(oc));
            if (g_eval % 60013 == 7) sample(callstr(e, t, a) + " = " + num(g) + " [" + v.name + "]");
        }
    };
    for_cases(A, one); for_int_cases(A, one);
    return 0;
}
// ---------------------------------------------------------------- C05: bounded work and nesting
static int mode_prof(Args& A)
{
    // limits: at least four times the work seen in calibration; the compilers' default depth of constant evaluation
    const double lim_depth = 512;
    static const std::map<std::string, double> blk = { {"erf_inv",4e5},{"incomplete_beta",1.5e5},{"incomplete_beta_inv",1e6},{"incomplete_gamma",1.5e6},{"incomplete_gamma_inv",6e7},{"lmgamma",2e6},{"tgamma",1e5},{"factorial",1e5} };
    auto one = [&](const SutEntry& e0, int t, const L* a) {
        auto bi = blk.find(e0.name); const double lim_blocks = bi == blk.end() ? 6e4 : bi->second;
        seen(e0.name, t, a, e0.arity);
        for (auto& v : g_var) {
            const SutEntry& e = entry_of(v, e0, t); int oc; v.prof_limit((unsigned long long)(lim_blocks * 8), (long)(lim_depth * 8), over_limit); v.prof_reset(); gcall(e, a, oc); ++g_eval;
            unsigned long long c, b; long d; v.prof_get(&c, &b, &d);
            auto upd = [&](const char* what, double val) { auto& w = g_worst[std::string(what) + "/" + e.name + "/" + v.name]; if (val > w.first || w.second.empty()) { w.first = val; w.second = callstr(e, t, a); } };
            upd("nesting", (double)d); upd("blocks", (double)b);
            g_count["calls observed"] += c; g_count["basic blocks observed"] += b;
            if (g_eval % 60013 == 7) sample(callstr(e, t, a) + ": " + std::to_string(c) + " calls, nesting " + std::to_string(d) + ", " + std::to_string(b) + " basic blocks [" + v.name + "]");
            if (oc) { violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + ": " + outcome_name(oc) + " (calls " + std::to_string(c) + ", blocks " + std::to_string(b) + ", nesting " + std::to_string(d) + ")"); continue; }
            if (d > lim_depth || b > lim_blocks) violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + ": nesting " + std::to_string(d) + " (limit " + std::to_string((long)lim_depth) + "), basic blocks " + std::to_string(b) + " (limit " + std::to_string((long)lim_blocks) + ")");
        }
    };
    for_cases(A, one); for_int_cases(A, one);
    return 0;
}
// ---------------------------------------------------------------- C03: the same bits from every build
// C++11 and later builds use different code for some functions: equal up to rounding, that is within 16 eps of the value or
// 8 eps of the function's error scale; the inverses within their accuracy; where no accuracy is claimed, anything but NaN
static std::string group_gap(const SutEntry& e, int t, const L* a, L x, L y)
{
    if (e.lastint == 2) { static const std::set<std::string> ex = { "gcd", "lcm", "binomial_coef", "pow", "max", "min", "abs", "sgn", "factorial" }; if (ex.count(e.name)) return "exact function"; t = 1; }
    const Spec* sp = find_spec(e.name);
    if (!sp) return "exact function";
    if (fabsl(x - y) <= 16 * EPS[t] * std::max(fabsl(x), fabsl(y)) + 4 * MINN[t]) { auto& w = g_worst[std::string("relative gap in eps (limit 16)/") + e.name + "/" + "fdl"[t]]; double q = (double)(fabsl(x - y) / EPS[t] / std::max(std::max(fabsl(x), fabsl(y)), MINN[t])); if (q > w.first) { w.first = q; w.second = callstr(e, t, a); } return ""; }
    Verdict vx = sp->judge(a, t, x), vy = sp->judge(a, t, y); if (!vx.region) return "";
    char b[160]; double k = limit(e.name, vx.region, t);
    if (strstr(e.name, "_inv") && strcmp(e.name, "inv_sqrt")) { if (vx.nerr <= k && vy.nerr <= k) return ""; snprintf(b, sizeof b, "normalised errors %.4g and %.4g, limit %.4g", vx.nerr, vy.nerr, k); return b; }
    L r = (L)vx.ref, probe = r * 1.25L; Verdict vp = sp->judge(a, t, probe); L unit = vp.nerr > 0 && vp.nerr < 1e299 ? fabsl(r) * 0.25L / vp.nerr : 0;     // eps * scale
    if (unit > 0 && fabsl(x - y) <= 8 * unit) { auto& w = g_worst[std::string("gap in units of rounding error (limit 8)/") + e.name + "/" + "fdl"[t]]; double q = (double)(fabsl(x - y) / unit); if (q > w.first) { w.first = q; w.second = callstr(e, t, a); } }
    if (fabsl(x - y) <= 8 * unit || (unit == 0 && vx.nerr <= k && vy.nerr <= k)) return "";
    snprintf(b, sizeof b, "they differ by %.4Lg units of rounding error", unit > 0 ? fabsl(x - y) / unit : INFL); return b;
}
static int mode_cross(Args& A)
{
    auto one = [&](const SutEntry& e0, int t, const L* a) {
        seen(e0.name, t, a, e0.arity);
        std::map<char, std::pair<std::string, L>> ref;            // first letter of the variant name: group
        for (auto& v : g_var) {
            const SutEntry& e = entry_of(v, e0, t); int oc; L g = gcall(e, a, oc); ++g_eval;
            if (oc) { violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + ": " + outcome_name(oc)); continue; }
            auto it = ref.find(v.name[0]);
            if (it == ref.end()) ref[v.name[0]] = { v.name, g };
            else { ++g_count["comparisons"]; if (!same(it->second.second, g)) violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + " = " + num(g) + " in build " + v.name + " but " + num(it->second.second) + " in build " + it->second.first); }
        }
        // between the groups (C++11 recursion, C++14 loops): NaN and infinity agree
        if (ref.size() == 2) {
            L x = ref.begin()->second.second, y = ref.rbegin()->second.second;
            if ((x != x) != (y != y)) violation(e0.name, t, a, e0.arity, ref.rbegin()->second.first, callstr(e0, t, a) + " = " + num(y) + " in build " + ref.rbegin()->second.first + " but " + num(x) + " in build " + ref.begin()->second.first);
            else if (!same(x, y)) {
                ++g_count["calls on which the two groups differ in the last bits"];
                std::string why = group_gap(e0, t, a, x, y);
                if (!why.empty()) violation(e0.name, t, a, e0.arity, ref.rbegin()->second.first, callstr(e0, t, a) + " = " + num(y) + " in build " + ref.rbegin()->second.first + " but " + num(x) + " in build " + ref.begin()->second.first + ": " + why);
            }
        }
        if (g_eval % 50021 < g_var.size()) sample(callstr(e0, t, a) + " = " + num(ref.begin()->second.second));
    };
    for_cases(A, one); for_int_cases(A, one);
    return 0;
}
// ---------------------------------------------------------------- C06: special values
struct SV { const char* fn; L a[3]; L want; };               // want: exact value; NaN means NaN; zero matches either sign
static std::vector<SV> special_table(int t)
{
    const L P = 3.14159265358979323846264338327950288L, I = INFL, N = NANL, MX = MAXV[t];
    L big = t == 0 ? 1e30L : t == 1 ? 1e300L : 1e300L;
    std::vector<SV> s = {
        {"exp",{0},1},{"exp",{-0.0L},1},{"exp",{I},I},{"exp",{-I},0},{"exp",{MX},I},{"exp",{-MX},0},{"exp",{big},I},{"exp",{-big},0},
        {"expm1",{0},0},{"expm1",{I},I},{"expm1",{-I},-1},{"expm1",{-big},-1},{"expm1",{big},I},
        {"log",{0},-I},{"log",{-0.0L},-I},{"log",{1},0},{"log",{I},I},{"log",{-1},N},{"log",{-I},N},{"log",{-big},N},{"log",{-MINN[t]},N},
        {"log2",{0},-I},{"log2",{1},0},{"log2",{I},I},{"log2",{-1},N},{"log2",{-I},N},{"log10",{0},-I},{"log10",{1},0},{"log10",{I},I},{"log10",{-1},N},{"log10",{-I},N},
        {"log1p",{0},0},{"log1p",{-1},-I},{"log1p",{I},I},{"log1p",{-2},N},{"log1p",{-I},N},
        {"sqrt",{0},0},{"sqrt",{-0.0L},0},{"sqrt",{1},1},{"sqrt",{I},I},{"sqrt",{-1},N},{"sqrt",{-I},N},{"sqrt",{-MINN[t]},N},{"sqrt",{-big},N},
        {"inv_sqrt",{0},I},{"inv_sqrt",{I},0},{"inv_sqrt",{-1},N},{"inv_sqrt",{-I},N},{"inv_sqrt",{1},1},
        {"sin",{0},0},{"cos",{0},1},{"cos",{-0.0L},1},{"tan",{0},0},{"sin",{I},N},{"sin",{-I},N},{"cos",{I},N},{"cos",{-I},N},{"tan",{I},N},{"tan",{-I},N},
        {"asin",{0},0},{"asin",{2},N},{"asin",{-2},N},{"asin",{I},N},{"asin",{-I},N},{"asin",{1+EPS[t]},N},{"asin",{-1-EPS[t]},N},{"asin",{1},rnd(P/2,t)},{"asin",{-1},rnd(-P/2,t)},
        {"acos",{1},0},{"acos",{2},N},{"acos",{-2},N},{"acos",{I},N},{"acos",{-I},N},{"acos",{1+EPS[t]},N},{"acos",{-1-EPS[t]},N},{"acos",{0},rnd(P/2,t)},{"acos",{-1},rnd(P,t)},
        {"atan",{0},0},{"atan",{I},rnd(P/2,t)},{"atan",{-I},rnd(-P/2,t)},
        {"sinh",{0},0},{"sinh",{I},I},{"sinh",{-I},-I},{"sinh",{big},I},{"sinh",{-big},-I},{"cosh",{0},1},{"cosh",{I},I},{"cosh",{-I},I},{"cosh",{big},I},{"cosh",{-big},I},
        {"tanh",{0},0},{"tanh",{I},1},{"tanh",{-I},-1},{"tanh",{MX},1},{"tanh",{-MX},-1},
        {"asinh",{0},0},{"asinh",{I},I},{"asinh",{-I},-I},{"acosh",{1},0},{"acosh",{I},I},{"acosh",{0.5L},N},{"acosh",{0},N},{"acosh",{-1},N},{"acosh",{-I},N},{"acosh",{1-EPS[t]},N},
        {"atanh",{0},0},{"atanh",{1},I},{"atanh",{-1},-I},{"atanh",{2},N},{"atanh",{-2},N},{"atanh",{I},N},{"atanh",{-I},N},{"atanh",{1+EPS[t]},N},
        {"lgamma",{1},0},{"lgamma",{0},I},{"lgamma",{I},I},
        {"tgamma",{1},1},{"tgamma",{2},1},{"tgamma",{3},2},{"tgamma",{0},I},{"tgamma",{I},I},{"tgamma",{-1},N},{"tgamma",{-2},N},{"tgamma",{-17},N},{"tgamma",{-I},N},{"tgamma",{big},I},{"tgamma",{-big},N},{"tgamma",{-1000.5L},t==2?NAN+0:0},
        {"erf",{0},0},{"erf",{I},1},{"erf",{-I},-1},{"erf",{MX},1},{"erf",{-MX},-1},{"erf_inv",{0},0},{"erf_inv",{1},I},{"erf_inv",{-1},-I},{"erf_inv",{1+EPS[t]},N},{"erf_inv",{-1-EPS[t]},N},{"erf_inv",{2},N},{"erf_inv",{-2},N},{"erf_inv",{I},N},{"erf_inv",{-I},N},
        {"abs",{-I},I},{"abs",{I},I},{"floor",{I},I},{"floor",{-I},-I},{"ceil",{I},I},{"ceil",{-I},-I},{"trunc",{I},I},{"trunc",{-I},-I},{"round",{I},I},{"round",{-I},-I},
        {"fmod",{1,0},N},{"fmod",{0,0},N},{"fmod",{I,1},N},{"fmod",{-I,1},N},{"fmod",{I,I},N},{"fmod",{0,1},0},{"fmod",{0,-3},0},
        {"hypot",{0,0},0},{"hypot",{I,1},I},{"hypot",{1,I},I},{"hypot",{-I,1},I},{"hypot",{0,-I},I},{"hypot",{I,I},I},{"hypot",{-I,I},I},{"hypot",{3,4},5},{"hypot",{0,7},7},{"hypot",{-7,0},7},{"hypot",{-3,-4},5},
        {"pow",{0,0},1},{"pow",{2,0},1},{"pow",{I,0},1},{"pow",{-2,0},1},{"pow",{0,2},0},{"pow",{0,-2},I},{"pow",{0,0.5L},0},{"pow",{2,I},I},{"pow",{2,-I},0},{"pow",{0.5L,I},0},{"pow",{0.5L,-I},I},{"pow",{I,2},I},{"pow",{I,0.5L},I},{"pow",{I,-2},0},{"pow",{1,3},1},{"pow",{1,0.37L},1},{"pow",{-2,0.5L},N},{"pow",{-1,0.5L},N},{"pow",{0,I},0},{"pow",{0,-I},I},
        {"powi",{0,0},1},{"powi",{-2,0},1},{"powi",{I,0},1},{"powi",{0,3},0},{"powi",{-2,3},-8},{"powi",{-2,2},4},{"powi",{-2,-1},-0.5L},{"powi",{2,10},1024},{"powi",{I,2},I},{"powi",{-I,3},-I},{"powi",{-I,2},I},{"powi",{I,-1},0},{"powi",{0,-2},I},{"powi",{1,2147483647},1},{"powi",{-1,2147483647},-1},{"powi",{1,-2147483648.0L},1},{"powi",{-1,-2147483648.0L},1},{"powi",{0.5L,2147483647},0},{"powi",{2,2147483647},I},{"powi",{2,-2147483648.0L},0},
        {"atan2",{0,1},0},{"atan2",{0,-1},rnd(P,t)},{"atan2",{-0.0L,-1},rnd(-P,t)},{"atan2",{1,0},rnd(P/2,t)},{"atan2",{-1,0},rnd(-P/2,t)},{"atan2",{1,I},0},{"atan2",{1,-I},rnd(P,t)},{"atan2",{-1,-I},rnd(-P,t)},{"atan2",{I,1},rnd(P/2,t)},{"atan2",{-I,1},rnd(-P/2,t)},{"atan2",{I,I},rnd(P/4,t)},{"atan2",{I,-I},rnd(3*P/4,t)},{"atan2",{-I,I},rnd(-P/4,t)},{"atan2",{-I,-I},rnd(-3*P/4,t)},{"atan2",{0,0},0},
        {"beta",{1,1},1},{"lbeta",{1,1},0},{"beta",{0,1},I},{"beta",{1,0},I},{"log_binomial_coef",{5,0},0},
        {"incomplete_gamma",{2,0},0},{"incomplete_gamma",{2,I},1},{"incomplete_gamma",{20,I},1},{"incomplete_gamma",{200,I},1},{"incomplete_gamma",{0,1},1},{"incomplete_gamma",{-1,1},N},{"incomplete_gamma",{0.5L,MX},1},{"incomplete_gamma",{50,MX},1},
        {"incomplete_gamma_inv",{2,0},0},{"incomplete_gamma_inv",{2,1},I},{"incomplete_gamma_inv",{20,1},I},{"incomplete_gamma_inv",{2,1.5L},N},{"incomplete_gamma_inv",{0,0.5L},0},
        {"incomplete_beta",{2,3,0},0},{"incomplete_beta",{2,3,1},1},{"incomplete_beta",{0.5L,0.5L,1},1},{"incomplete_beta",{0.5L,0.5L,0},0},{"incomplete_beta",{1,1,0.5L},0.5L},
        {"incomplete_beta_inv",{2,3,0},0},{"incomplete_beta_inv",{2,3,1},1},{"incomplete_beta_inv",{0.5L,0.5L,1},1},{"incomplete_beta_inv",{0.5L,0.5L,0},0},
        {"factorial",{0},1},{"factorial",{1},1},{"lmgamma",{2,0},N},{"lmgamma",{2,-1},N},{"lmgamma",{1,1},0},{"lmgamma",{0.5L,2},I} };
    return s;
}
static int mode_special(Args& A)
{
    static const std::set<std::string> exact = { "hypot", "powi", "beta", "incomplete_beta", "tgamma", "lgamma", "lbeta", "log_binomial_coef", "asin", "acos", "atan", "atan2", "factorial", "lmgamma", "acosh", "exp", "cosh", "pow" };
    for (int t = 0; t < 3; ++t) {
        if (A.shard == 0) for (auto& s : special_table(t)) if (wanted(A, s.fn)) for (auto& v : g_var) {
            const SutEntry& e = v.fn[t][s.fn]; L a[3]; for (int i = 0; i < 3; ++i) a[i] = e.lastint && i == 1 ? s.a[i] : rnd(s.a[i], t);
            if (t == 2 && !strcmp(s.fn, "tgamma") && s.a[0] == -1000.5L) continue;
            int oc; L g = gcall(e, a, oc); ++g_eval; seen(s.fn, t, a, e.arity);
            bool ok = !oc && (s.want != s.want ? g != g : fabsl(s.want) == INFL ? g == s.want : s.want == 0 ? fabsl(g) <= (exact.count(s.fn) ? 16 * EPS[t] : 0) : g == s.want || (exact.count(s.fn) && fabsl(g - s.want) <= (16) * EPS[t] * fabsl(s.want)));
            ++g_count[std::string("tabulated: want ") + (s.want != s.want ? "NaN" : fabsl(s.want) == INFL ? "infinity" : s.want == 0 ? "zero" : "a value")];
            if (!ok) violation(s.fn, t, a, e.arity, v.name, callstr(e, t, a) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want " + num(s.want));
        }
        // the origin, with the signs of its zeros
        if (A.shard == 0 && wanted(A, "atan2")) for (int k = 0; k < 4; ++k) for (auto& v : g_var) {
            const L P = 3.14159265358979323846264338327950288L; const L a[3] = { k & 1 ? -0.0L : 0.0L, k & 2 ? -0.0L : 0.0L, 0 }, want = k & 2 ? P : 0; const SutEntry& e = v.fn[t]["atan2"]; int oc; L g = gcall(e, a, oc); ++g_eval; seen("atan2", t, a, 2); ++g_count["atan2 of signed zeros"];
            if (oc || !(fabsl(fabsl(g) - want) <= (16) * EPS[t] * want) || !!std::signbit(g) != !!(k & 1)) violation("atan2", t, a, 2, v.name, callstr(e, t, a) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want " + num(k & 1 ? -want : want));
        }
        // NaN in any argument gives NaN, whatever the others are
        static const std::set<std::string> skip = { "sgn", "signbit", "copysign", "max", "min" };
        for (auto& kv : g_var[0].fn[t]) {
            if (skip.count(kv.first) || !wanted(A, kv.first)) continue; const SutEntry& e0 = kv.second; const Spec* sp = find_spec(kv.first);
            Rng r(A.seed * 77 + A.shard * 7919 + t * 31 + std::hash<std::string>()(kv.first));
            uint64_t n = (uint64_t)(A.budget / A.nsh / case_cost(kv.first)); if (e0.arity == 1) n = 4;
            for (uint64_t i = 0; i < n; ++i) {
                L a[3] = { 0, 0, 0 }; gen_any(e0, sp, r, t, a);
                int pos = (int)r.below(e0.lastint ? 1 : e0.arity); a[pos] = r.p(0.5) ? NANL : -NANL;
                if (kv.first == "powi" && a[1] == 0) continue; if (kv.first == "pow" && a[1] == 0) continue;
                if (kv.first == "pow" && a[0] == 1) continue;
                seen(e0.name, t, a, e0.arity);
                for (auto& v : g_var) { const SutEntry& e = v.fn[t][kv.first]; int oc; L g = gcall(e, a, oc); ++g_eval; ++g_count["NaN propagation"]; if (oc || g == g) violation(e.name, t, a, e.arity, v.name, callstr(e, t, a) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want NaN"); }
            }
        }
        // domain errors over whole half lines
        struct Dom { const char* fn; L lo, hi; };      // strictly outside the domain: NaN
        const Dom doms[] = { {"log",-MAXV[t],-MINN[t]}, {"log2",-MAXV[t],-MINN[t]}, {"log10",-MAXV[t],-MINN[t]}, {"log1p",-MAXV[t],-1-EPS[t]}, {"sqrt",-MAXV[t],-MINN[t]}, {"inv_sqrt",-MAXV[t],-MINN[t]}, {"asin",1+EPS[t],MAXV[t]}, {"asin",-MAXV[t],-1-EPS[t]}, {"acos",1+EPS[t],MAXV[t]}, {"acos",-MAXV[t],-1-EPS[t]},
            {"acosh",-MAXV[t],-MINN[t]}, {"acosh",MINN[t],1-EPS[t]}, {"atanh",1+EPS[t],MAXV[t]}, {"atanh",-MAXV[t],-1-EPS[t]}, {"erf_inv",1+EPS[t],MAXV[t]}, {"erf_inv",-MAXV[t],-1-EPS[t]} };
        for (auto& d : doms) if (wanted(A, d.fn)) {
            Rng r(A.seed * 99 + A.shard * 7919 + t * 31 + (uint64_t)(&d - doms)); uint64_t n = (uint64_t)(A.budget / A.nsh);
            for (uint64_t i = 0; i < n; ++i) { L x = d.hi < 0 ? -mixv(r, -d.hi, -d.lo, t) : mixv(r, d.lo, d.hi, t); seen(d.fn, t, &x, 1);
                for (auto& v : g_var) { const SutEntry& e = v.fn[t][d.fn]; int oc; L g = gcall(e, &x, oc); ++g_eval; if (++g_count["outside the domain"] % 5003 == 1 && g_samples.size() < 6) sample(callstr(e, t, &x) + " = " + num(g) + ", outside the domain"); if (oc || g == g) violation(d.fn, t, &x, 1, v.name, callstr(e, t, &x) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want NaN (outside the domain)"); } }
        }
        // functions of several arguments: one at a limit, the others anything
        { Rng r(A.seed * 103 + A.shard * 7919 + t); uint64_t n = (uint64_t)(A.budget / A.nsh); const L P = 3.14159265358979323846264338327950288L; const L lim = 16;
          for (uint64_t i = 0; i < n; ++i) {
            auto chk = [&](const char* fn, L x0, L x1, L x2, L want, L slack, const char* why) {     // want: NaN means NaN; zero matches either sign
                if (!wanted(A, fn)) return; L a[3] = { x0, x1, x2 }; const SutEntry& e0 = g_var[0].fn[t][fn]; seen(fn, t, a, e0.arity);
                for (auto& v : g_var) { const SutEntry& e = v.fn[t][fn]; int oc; L g = gcall(e, a, oc); ++g_eval; if (++g_count["limits of functions of several arguments"] % 5003 == 1) sample(callstr(e, t, a) + " = " + num(g) + ", want " + num(want));
                    bool ok = !oc && (want != want ? g != g : fabsl(want) == INFL ? g == want : fabsl(g - want) <= slack * EPS[t] * fabsl(want));
                    if (!ok) violation(fn, t, a, e.arity, v.name, callstr(e, t, a) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want " + num(want) + " (" + why + ")"); } };
            L x = mixv(r, MINN[t], MAXV[t], t), s1 = r.sign(), s2 = r.sign(), any = r.p(0.1) ? INFL : r.p(0.1) ? 0 : x;
            chk("hypot", s1 * INFL, s2 * any, 0, INFL, 0, "an infinite side"); chk("hypot", s2 * any, s1 * INFL, 0, INFL, 0, "an infinite side");
            chk("hypot", s1 * x, s2 * (L)0, 0, x, 0, "a zero side"); chk("hypot", s2 * (L)0, s1 * x, 0, x, 0, "a zero side");
            chk("atan2", s1 * x, INFL, 0, 0, 0, "x = inf"); chk("atan2", s1 * x, -INFL, 0, s1 * P, lim, "x = -inf"); chk("atan2", s1 * INFL, s2 * x, 0, s1 * P / 2, lim, "y infinite");
            chk("atan2", s1 * x, s2 * (L)0, 0, s1 * P / 2, lim, "x = 0"); chk("atan2", s1 * (L)0, x, 0, 0, 0, "y = 0, x > 0"); chk("atan2", s1 * (L)0, -x, 0, s1 * P, lim, "y = 0, x < 0");
            chk("pow", s1 * any, s2 * (L)0, 0, 1, 0, "zero exponent"); chk("pow", 0, x, 0, 0, 0, "zero base"); chk("pow", 0, -x, 0, INFL, 0, "zero base, negative exponent");
            chk("pow", INFL, x, 0, INFL, 0, "infinite base"); chk("pow", INFL, -x, 0, 0, 0, "infinite base, negative exponent");
            if (x > 1 + 4 * EPS[t]) { chk("pow", x, INFL, 0, INFL, 0, "infinite exponent"); chk("pow", x, -INFL, 0, 0, 0, "exponent -inf"); } else if (x < 1 - 4 * EPS[t]) { chk("pow", x, INFL, 0, 0, 0, "infinite exponent"); chk("pow", x, -INFL, 0, INFL, 0, "exponent -inf"); }
            chk("fmod", s1 * INFL, s2 * x, 0, NANL, 0, "infinite dividend"); chk("fmod", s1 * x, s2 * (L)0, 0, NANL, 0, "zero divisor"); chk("fmod", s1 * (L)0, s2 * x, 0, 0, 0, "zero dividend");
            if (i % 4 == 0) {
                L a = mixv(r, 0.05L, 2000, t), b = mixv(r, 0.05L, 2000, t), q = mixv(r, 1 + EPS[t], MAXV[t], t);
                chk("incomplete_gamma", a, 0, 0, 0, 0, "x = 0"); chk("incomplete_gamma", a, INFL, 0, 1, 0, "x = inf"); chk("incomplete_gamma_inv", a, 0, 0, 0, 0, "p = 0"); chk("incomplete_gamma_inv", a, 1, 0, INFL, 0, "p = 1"); chk("incomplete_gamma_inv", a, q, 0, NANL, 0, "p > 1"); chk("incomplete_gamma", -mixv(r, MINN[t], MAXV[t], t), b, 0, NANL, 0, "negative parameter");
                chk("incomplete_beta", a, b, 0, 0, 0, "z = 0"); chk("incomplete_beta", a, b, 1, 1, 0, "z = 1"); chk("incomplete_beta_inv", a, b, 0, 0, 0, "p = 0"); chk("incomplete_beta_inv", a, b, 1, 1, 0, "p = 1");
                chk("beta", 0, b, 0, INFL, 0, "a = 0"); chk("beta", a, 0, 0, INFL, 0, "b = 0"); chk("lbeta", 0, b, 0, INFL, 0, "a = 0"); chk("lbeta", a, 0, 0, INFL, 0, "b = 0"); chk("lgamma", -mixv(r, 0, MAXV[t], t), 0, 0, INFL, 0, "x <= 0"); chk("lmgamma", s1 * a, -(L)r.below(5), 0, NANL, 0, "dimension below 1");
            } } }
        // poles of the gamma function at all non-positive integers; lgamma of non-positive numbers; saturation
        if (true) { Rng r(A.seed * 101 + A.shard * 7919 + t); uint64_t n = (uint64_t)(A.budget / A.nsh);
            for (uint64_t i = 0; i < n; ++i) {
                L k = -(i < 400 ? (L)(i + 1) : floorl(expl(r.uni(0, 30)))); k = rnd(k, t); L x = k;
                auto chk = [&](const char* fn, L xx, std::function<bool(L)> ok, const char* want) { if (!wanted(A, fn)) return; seen(fn, t, &xx, 1); for (auto& v : g_var) { const SutEntry& e = v.fn[t][fn]; int oc; L g = gcall(e, &xx, oc); ++g_eval; ++g_count["poles and saturation"]; if (oc || !ok(g)) violation(fn, t, &xx, 1, v.name, callstr(e, t, &xx) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want " + want); } };
                chk("tgamma", x, [](L g) { return g != g; }, "NaN (pole)");
                L sat = mixv(r, t == 0 ? 24 : t == 1 ? 24 : 30, MAXV[t], t);
                chk("tanh", sat, [&](L g) { return fabsl(g - 1) <= 2 * EPS[t]; }, "1"); chk("tanh", -sat, [&](L g) { return fabsl(g + 1) <= 2 * EPS[t]; }, "-1");
                L es = mixv(r, 8, MAXV[t], t); chk("erf", es, [&](L g) { return fabsl(g - 1) <= EPS[t]; }, "1"); chk("erf", -es, [&](L g) { return fabsl(g + 1) <= EPS[t]; }, "-1");
                L ov = mixv(r, t == 0 ? 90 : t == 1 ? 711 : 11358, MAXV[t], t); chk("exp", ov, [](L g) { return g == INFL; }, "infinity"); chk("expm1", ov, [](L g) { return g == INFL; }, "infinity"); chk("cosh", ov, [](L g) { return g == INFL; }, "infinity"); chk("sinh", -ov, [](L g) { return g == -INFL; }, "-infinity");
                L un = -mixv(r, t == 0 ? 105 : t == 1 ? 747 : 11515, MAXV[t], t); chk("exp", un, [&](L g) { return g == 0; }, "0"); chk("expm1", un, [](L g) { return g == -1; }, "-1");
            } }
    }
    return 0;
}
// ---------------------------------------------------------------- C07, C08: exact functions
static L gen_round(Rng& r, int t)
{
    int m = (int)r.below(10); int bits = t == 0 ? 24 : t == 1 ? 53 : 64; L x;
    if (m < 2) return anybits(r, t);
    if (m < 4) { x = floorl(expl(r.uni(0, bits * 0.6932L))); x += r.p(0.5) ? 0.5L : 0; }
    else if (m < 6) { x = exp2l((L)r.below(bits + 3)) + (L)((int)r.below(9) - 4) * 0.5L; }
    else if (m < 7) { x = mixv(r, 0, 10, t); }
    else if (m < 8) { x = expl(r.uni(-5, bits * 0.6932L + 2)); }
    else if (m < 9) { x = (L)((int)r.below(2000)) / 2; }
    else x = g_lits.empty() ? 1 : g_lits[r.below(g_lits.size())];
    x = rnd(x, t); if (fabsl(x) < INFL) x = stepu(x, t, (int)r.below(5) - 2);
    return x * r.sign();
}
static bool exact_ok(const std::string& f, int t, const L* a, L g, L& want)
{
    L x = a[0];
    if (f == "floor") want = floorl(x); else if (f == "ceil") want = ceill(x); else if (f == "trunc") want = truncl(x); else if (f == "round") want = roundl(x);
    else if (f == "abs") want = fabsl(x); else if (f == "signbit") want = std::signbit(x) ? 1 : 0;
    else if (f == "sgn") { want = x > 0 ? 1 : x < 0 ? -1 : 0; if (x != x) return true; }
    else if (f == "copysign") { if (x != x || a[1] != a[1]) return true; want = copysignl(x, a[1]); return same(want, g); }
    else if (f == "max") { if (x != x || a[1] != a[1]) return true; want = x > a[1] ? x : a[1]; return g == want; }
    else if (f == "min") { if (x != x || a[1] != a[1]) return true; want = x < a[1] ? x : a[1]; return g == want; }
    if (x != x && f != "signbit") return g != g;
    if (f == "abs") return same(want, g);
    if (x == 0 && (f == "floor" || f == "ceil" || f == "trunc" || f == "round")) { want = x; return same(want, g); }      // a zero keeps its sign
    (void)t; return g == want;
}
static int mode_exact(Args& A)
{
    for (auto& f : A.fns) for (int t = 0; t < 3; ++t) {
        if (f == "fmod") continue;
        const SutEntry& e0 = g_var[0].fn[t][f]; Rng r(A.seed * 555 + A.shard * 7919 + t * 13 + std::hash<std::string>()(f)); auto S = specials(t);
        auto one = [&](const L* a) { ++g_count["cases"]; seen(f.c_str(), t, a, e0.arity); for (auto& v : g_var) { const SutEntry& e = v.fn[t][f]; int oc; L g = gcall(e, a, oc); ++g_eval; L want = 0; if (oc || !exact_ok(f, t, a, g, want)) violation(f.c_str(), t, a, e0.arity, v.name, callstr(e, t, a) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want " + num(want)); if (g_eval % 300007 < 1) sample(callstr(e, t, a) + " = " + num(g)); } };
        if (A.shard == 0) for (L x : S) { if (e0.arity == 1) one(&x); else for (L y : S) { L a[2] = { x, y }; one(a); } }
        if (e0.arity == 1) { for (size_t i = A.shard; i < g_lits.size(); i += A.nsh) for (int k = -3; k <= 3; ++k) for (int s = 1; s >= -1; s -= 2) { L x = s * stepu(rnd(g_lits[i], t), t, k); one(&x); }
            for (long i = A.shard; i <= 6000; i += A.nsh) for (int k = -1; k <= 1; ++k) for (int s = 1; s >= -1; s -= 2) { L x = s * stepu(rnd((L)i / 2, t), t, k); one(&x); }
            int bits = t == 0 ? 24 : t == 1 ? 53 : 64; for (int b = 0; b <= bits + 2; ++b) for (int j = -6; j <= 6; ++j) for (int s = 1; s >= -1; s -= 2) { if ((b + j + 6) % A.nsh != A.shard) continue; L x = s * rnd(exp2l(b) + j * 0.5L, t); one(&x); } }
        uint64_t n = (uint64_t)(A.budget / A.nsh);
        for (uint64_t i = 0; i < n; ++i) { L a[2] = { gen_round(r, t), gen_round(r, t) }; if (r.p(0.1)) a[1] = a[0]; if (r.p(0.1)) a[1] = -a[0]; if (r.p(0.2)) a[1] = stepu(a[0], t, (int)r.below(5) - 2); one(a); }
    }
    if (std::find(A.fns.begin(), A.fns.end(), "fmod") != A.fns.end()) for (int t = 0; t < 3; ++t) {
        Rng r(A.seed * 556 + A.shard * 7919 + t); const L rtop = t == 0 ? 4194304.0L : t == 1 ? 1125899906842624.0L : 2305843009213693952.0L, itop = t == 0 ? 16777216.0L : t == 1 ? 9007199254740992.0L : 9223372036854775808.0L;
        uint64_t n = (uint64_t)(A.budget / A.nsh);
        for (uint64_t i = 0; i < n; ++i) {
            L a[2]; int m = (int)r.below(7); bool ints = m < 3 || m == 6; const L top = ints ? itop : rtop;
            if (m == 6) { a[1] = floorl(r.p(0.5) ? 1 + (L)r.below(40) : expl(r.uni(0, logl(top) / 2))); L q = floorl(r.p(0.5) ? top / a[1] * (1 - 0.01L * r.u()) : top / a[1] * r.u()); int w = (int)r.below(4); a[0] = q * a[1] + (w == 0 ? 0 : w == 1 ? 1 : w == 2 ? a[1] - 1 : floorl(a[1] * r.u())); if (a[0] >= top) continue; }    // any quotient, remainders at both ends
            else if (ints) { a[0] = floorl(m == 0 ? r.uni(0, 2000) : expl(r.uni(0, logl(top) - 0.01L))); a[1] = floorl(m == 2 ? expl(r.uni(0, logl(top) - 0.01L)) : r.uni(1, 300)); if (a[1] < 1) a[1] = 1; if (r.p(0.2)) a[0] = a[1] * floorl(r.uni(0, std::min((L)1e6, top / a[1]))); }
            else { a[1] = mixv(r, 1e-3L, 1e3L, t); a[0] = m == 3 ? rnd(a[1] * r.u(), t) : m == 4 ? rnd(a[1] * expl(r.uni(0, 20)), t) : mixv(r, 0, 1e6L, t); if (r.p(0.1)) a[0] = rnd(a[1] * floorl(r.uni(0, 100)), t); }
            a[0] = rnd(a[0], t) * r.sign(); a[1] = rnd(a[1], t) * r.sign();
            if (fabsl(a[0]) >= top || fabsl(a[0] / a[1]) >= top) continue;
            ++g_count[ints ? "fmod of integers (exact)" : "fmod of reals"]; seen("fmod", t, a, 2); L want = fmodl(a[0], a[1]);
            for (auto& v : g_var) { const SutEntry& e = v.fn[t]["fmod"]; int oc; L g = gcall(e, a, oc); ++g_eval; bool ok = !oc;
                if (ok) { if (ints) ok = g == want; else { L d = fabsl(g - want), s = EPS[t] * 4 * (fabsl(a[0]) + fabsl(a[1])); ok = g == g && (d <= s || fabsl(d - fabsl(a[1])) <= s); if (fabsl(a[0]) < fabsl(a[1]) * (1 - 4 * EPS[t])) ok = g == a[0]; } }
                if (!ok) violation("fmod", t, a, 2, v.name, callstr(e, t, a) + " = " + (oc ? outcome_name(oc) : num(g)) + ", want " + num(want)); }
        }
    }
    return 0;
}
// exhaustive over all 2^32 floats (thorough tier)
static int mode_exact32(Args& A)
{
    for (auto& f : A.fns) for (auto& v : g_var) {
        auto fn = (float (*)(float))v.fn[0][f].fn;
        for (uint64_t b = (uint64_t)A.shard; b < (1ull << 32); b += (uint64_t)A.nsh) {
            uint32_t w = (uint32_t)b; float x; memcpy(&x, &w, 4); ++g_eval; float g = fn(x); L a = x, want = 0;
            if (!exact_ok(f, 0, &a, g, want)) violation(f.c_str(), 0, &a, 1, v.name, f + "<float>(" + num(a) + ") = " + num(g) + ", want " + num(want));
        }
        g_count["float values, exhaustive: " + f + " in " + v.name] = g_eval;
    }
    for (uint64_t i = 0; i < 1000; ++i) { L a = (L)i; seen("exhaustive", 0, &a, 1); }
    return 0;
}
// accuracy over every 2^32 float (thorough): the reference is a long double libm function where one exists, and
// the binary128 judgement decides any case that is not plainly inside the limit
typedef L (*LF)(L);
static int mode_acc32(Args& A)
{
    std::map<std::string, LF> ref = { {"exp",expl},{"expm1",expm1l},{"log",logl},{"log2",log2l},{"log10",log10l},{"log1p",log1pl},{"sqrt",sqrtl},{"sin",sinl},{"cos",cosl},{"tan",tanl},{"asin",asinl},{"acos",acosl},{"atan",atanl},{"sinh",sinhl},{"cosh",coshl},{"tanh",tanhl},{"asinh",asinhl},{"acosh",acoshl},{"atanh",atanhl},{"erf",erfl},{"inv_sqrt",[](L x) { return 1 / sqrtl(x); }} };
    for (auto& f : A.fns) {
        if (!ref.count(f)) continue; LF rf = ref[f]; const Spec* sp = find_spec(f); if (!sp) continue;
        std::vector<Variant*> vs; for (auto& v : g_var) vs.push_back(&v);
        uint64_t judged = 0, quick = 0; uint64_t stride = (uint64_t)(A.budget >= 1 ? A.budget : 1);
        for (uint64_t b = (uint64_t)A.shard * stride; b < (1ull << 32); b += (uint64_t)A.nsh * stride) {
            uint64_t bb = b + (A.seed * 2654435761u) % stride; uint32_t w = (uint32_t)bb; float x; memcpy(&x, &w, 4); if (x != x) continue;
            L want = rf((L)x); bool odd = false;
            for (auto* v : vs) { float g = ((float (*)(float))v->fn[0][f].fn)(x); ++g_eval; if (fabsl((L)g - want) <= 4 * EPS[0] * fabsl(want) || (L)g == want || (g != g && want != want) || (fabsl(want) < MINN[0] && fabsl((L)g) <= 2 * MINN[0]) || (want > MAXV[0] && (L)g == INFL) || (want < -MAXV[0] && (L)g == -INFL)) ++quick; else odd = true; }
            if (odd) { L a = x; acc_case(*sp, 0, &a, A.calib, vs); ++judged; }
        }
        g_count["floats within 4 eps of the long double reference: " + f] = quick; g_count["floats judged in binary128: " + f] = judged;
    }
    return 0;
}
// ---------------------------------------------------------------- C23: symmetries, ranges, order
static L call1(Variant& v, int t, const char* f, L x, int& oc) { int o; L g = gcall(v.fn[t][f], &x, o); ++g_eval; if (o) oc = o; return g; }
static L call2(Variant& v, int t, const char* f, L x, L y, int& oc) { L a[2] = { x, y }; int o; L g = gcall(v.fn[t][f], a, o); ++g_eval; if (o) oc = o; return g; }
static L call3(Variant& v, int t, const char* f, L x, L y, L z, int& oc) { L a[3] = { x, y, z }; int o; L g = gcall(v.fn[t][f], a, o); ++g_eval; if (o) oc = o; return g; }
static int mode_inv(Args& A)
{
    struct Odd { const char* f; int even; L hi; L rlo, rhi; int inc; };
    const L P = 3.14159265358979323846264338327950288L;
    // even: 1 even, 0 odd, -1 neither; result range; inc: 1 increasing (from 0 on), -1 decreasing, 0 neither; slack in units of eps * max(1,|value|)
    const Odd T[] = { {"sin",0,1e4L,-1,1,0},{"cos",1,1e4L,-1,1,0},{"tan",0,1e4L,-INFL,INFL,0},{"asin",0,1,-P/2,P/2,1},{"atan",0,-1,-P/2,P/2,1},{"sinh",0,80,-INFL,INFL,1},{"cosh",1,80,1,INFL,1},{"tanh",0,-1,-1,1,1},{"asinh",0,-1,-INFL,INFL,1},{"atanh",0,1,-INFL,INFL,1},{"erf",0,-1,-1,1,1},{"erf_inv",0,0.999L,-INFL,INFL,1},
        {"exp",-1,80,0,INFL,1},{"expm1",-1,80,-1,INFL,1},{"log",-1,-1,-INFL,INFL,1},{"log2",-1,-1,-INFL,INFL,1},{"log10",-1,-1,-INFL,INFL,1},{"log1p",-1,-1,-INFL,INFL,1},{"sqrt",-1,-1,0,INFL,1},{"inv_sqrt",-1,-1,0,INFL,-1},{"acos",-1,1,0,P,-1},{"floor",-1,1e15L,-INFL,INFL,1},{"ceil",-1,1e15L,-INFL,INFL,1},{"trunc",0,1e15L,-INFL,INFL,1},{"round",0,1e15L,-INFL,INFL,1},{"abs",1,-1,0,INFL,1},{"sgn",0,-1,-1,1,1} };
    uint64_t n = (uint64_t)(A.budget / A.nsh);
    for (int t = 0; t < 3; ++t) for (auto& T1 : T) {
        Rng r(A.seed * 901 + A.shard * 7919 + t * 17 + std::hash<std::string>()(T1.f)); bool step = T1.f[0] == 'f' || T1.f[0] == 'c';
        (void)step; uint64_t m = (uint64_t)(n / case_cost(T1.f));
        for (uint64_t i = 0; i < m; ++i) {
            L hi = T1.hi < 0 ? MAXV[t] * 0.99L : T1.hi; if (!strcmp(T1.f, "sin") || !strcmp(T1.f, "cos") || !strcmp(T1.f, "tan")) { if (r.p(0.7)) hi = 20; }
            L x = mixv(r, !strcmp(T1.f, "inv_sqrt") ? MINN[t] : 0, hi, t); if (x != 0 && x < MINN[t]) continue; if (T1.f[0] == 'a' && T1.hi == 1 && x == 1 && !strcmp(T1.f, "atanh")) continue;
            seen(T1.f, t, &x, 1);
            for (auto& v : g_var) {
                int oc = 0; L g = call1(v, t, T1.f, x, oc); auto bad = [&](const std::string& why) { violation(T1.f, t, &x, 1, v.name, std::string(T1.f) + "(" + num(x) + ") = " + num(g) + ": " + why); };
                if (oc) { bad(outcome_name(oc)); continue; }
                if (g_eval % 40009 == 3 && g_samples.size() < 8) sample(std::string(T1.f) + "(" + num(x) + ") = " + num(g) + ": symmetry, range, order");
                if (T1.even >= 0) { L h = call1(v, t, T1.f, -x, oc); ++g_count["symmetry"]; bool big = !strcmp(T1.f, "sin") || !strcmp(T1.f, "cos") || !strcmp(T1.f, "tan"); L tol = (!strcmp(T1.f, "sinh") || !strcmp(T1.f, "cosh") || !strcmp(T1.f, "erf_inv") || !strcmp(T1.f, "atanh") ? 16 * (1 + (T1.f[3] == 'h' ? x : 0)) : big ? 2 : 0) * EPS[t] * std::max(fabsl(g), (L)(T1.f[0] == 's' || T1.f[0] == 'a' ? 1 : 0));
                    if (big && x > 100) tol = std::max(tol, 8 * EPS[t] * x); if (!strcmp(T1.f, "tan")) tol *= 1 + g * g;
                    if (!(h == (T1.even ? g : -g)) && !(fabsl(h - (T1.even ? g : -g)) <= tol)) bad("value at -x is " + num(h)); }
                L sl = 8 * EPS[t]; if (t == 2) sl *= 4;
                ++g_count["range"]; if (!(g >= T1.rlo - sl * (fabsl(T1.rlo) < INFL ? std::max((L)1, fabsl(T1.rlo)) : 0) && g <= T1.rhi + sl * (fabsl(T1.rhi) < INFL ? std::max((L)1, fabsl(T1.rhi)) : 0))) bad("outside the range of the function");
                if (T1.inc) { int k = (int)r.below(4); L y = k == 0 ? stepu(x, t, 1 + (int)r.below(3)) : k == 1 ? rnd(x * (1 + expl(r.uni(-30, 0))), t) : k == 2 ? mixv(r, x, std::max(hi, x), t) : rnd(x * 2, t); if (y < x || y > hi) continue;
                    L h = call1(v, t, T1.f, y, oc); ++g_count["order"]; bool ex = !strcmp(T1.f, "floor") || !strcmp(T1.f, "ceil") || !strcmp(T1.f, "trunc") || !strcmp(T1.f, "round") || !strcmp(T1.f, "abs") || !strcmp(T1.f, "sgn");
                    L mag = fabsl(g); if (!strcmp(T1.f, "exp") || !strcmp(T1.f, "expm1") || !strcmp(T1.f, "sinh") || !strcmp(T1.f, "cosh")) mag = (mag + 1) * (1 + x); else if (strcmp(T1.f, "inv_sqrt") && strcmp(T1.f, "sqrt")) mag = std::max(mag, (L)1); if (!strcmp(T1.f, "erf")) { Q am = std::max(erfamp((Q)x), erfamp((Q)y)); mag = std::max((L)1, (L)am); if (t == 2) mag *= 8; } if (!strcmp(T1.f, "erf_inv")) mag = (1 + mag) * expl(g * g) * (fabsl(g) > 1 ? expl(2 * (std::min(g, (L)1.7L) * std::min(g, (L)1.7L) - 1)) : 1) * (t == 2 ? 60 : 1); if (!strcmp(T1.f, "asin") || !strcmp(T1.f, "acos")) mag += 1 / sqrtl(std::max(EPS[t], 1 - x)); if (!strcmp(T1.f, "sqrt") && t == 2) mag *= 8; if (!strcmp(T1.f, "expm1") && y < 1e-4L) mag = fabsl(g);
                    L slack = ex ? 0 : sl * mag; if (g == h) continue; if (!(T1.inc > 0 ? g <= h + slack : h <= g + slack) && fabsl(h) != INFL) bad("not monotone: value at " + num(y) + " is " + num(h)); }
            }
        }
    }
    // symmetric pairs, complements, recurrences and round trips
    for (int t = 0; t < 3; ++t) {
        Rng r(A.seed * 907 + A.shard * 7919 + t * 17); L E = EPS[t]; const L W = t == 2 ? 32 : 1;
        for (uint64_t i = 0; i < n / 4; ++i) for (auto& v : g_var) {
            int oc = 0; L x, y, g, h;
            auto chk = [&](const char* f, bool ok, const std::string& why) { if (++g_count["identities"] % 30011 == 5) sample("an identity of " + std::string(f) + " at (" + num(x) + ", " + num(y) + ")"); L a[2] = { x, y }; if (oc || !ok) violation(f, t, a, 2, v.name, std::string(f) + " at (" + num(x) + ", " + num(y) + "): " + (oc ? outcome_name(oc) : why)); };
            x = any_pos(r, t); y = r.p(0.5) ? rnd(x * expl(r.uni(-5, 5)), t) : any_pos(r, t); if (y > MAXV[t] || y < MINN[t]) y = x; g = call2(v, t, "hypot", x, y, oc); h = call2(v, t, "hypot", y, -x, oc);
            chk("hypot", g == h || fabsl(g - h) <= 8 * E * g, "hypot(x,y) = " + num(g) + ", hypot(y,-x) = " + num(h)); chk("hypot", g >= std::max(x, y) * (1 - 8 * E), "below the longer side: " + num(g));
            x = mixv(r, 0, 30, t); y = 0; g = call1(v, t, "sin", x, oc); h = call1(v, t, "cos", x, oc); chk("sin", fabsl(g * g + h * h - 1) <= 16 * E * (1 + x), "sin^2+cos^2 = " + num(g * g + h * h));
            L tn = call1(v, t, "tan", x, oc); if (fabsl(h) > 1e-3L) chk("tan", fabsl(tn - g / h) <= 32 * E * (1 + x) * (1 + tn * tn), "tan = " + num(tn) + ", sin/cos = " + num(g / h));
            x = mixv(r, 0, 80, t); g = call1(v, t, "exp", x, oc); h = call1(v, t, "exp", -x, oc); chk("exp", fabsl(g * h - 1) <= 32 * E * (1 + x), "exp(x)exp(-x) = " + num(g * h)); L lg = call1(v, t, "log", g, oc); chk("log", fabsl(lg - x) <= 24 * E * (1 + x), "log(exp(x)) = " + num(lg));
            x = any_pos(r, t); if (x > MINN[t] * 4 / E && x < MAXV[t] / 2) { g = call1(v, t, "sqrt", x, oc); chk("sqrt", fabsl(g * g - x) <= (t == 2 ? 120 : 32) * E * x, "sqrt(x)^2 = " + num(g * g)); L iv = call1(v, t, "inv_sqrt", x, oc); chk("inv_sqrt", fabsl(iv * g - 1) <= (t == 2 ? 120 : 32) * E, "sqrt(x)*inv_sqrt(x) = " + num(iv * g)); }
            x = mixv(r, 0.05L, t == 0 ? 30 : 150, t); g = call1(v, t, "tgamma", x, oc); L x1 = rnd(x + 1, t); h = call1(v, t, "tgamma", x1, oc); L gl = call1(v, t, "lgamma", x, oc); if (g < MAXV[t] && h < MAXV[t]) { chk("tgamma", fabsl(h - x * g) <= 96 * W * E * (1 + fabsl(gl) + 8 * fabsl(logl(x) + 1)) * fabsl(h), "tgamma(x+1) = " + num(h) + ", x*tgamma(x) = " + num(x * g)); chk("lgamma", fabsl(gl - logl(g)) <= 64 * W * E * (1 + fabsl(gl)), "lgamma = " + num(gl) + ", log(tgamma) = " + num(logl(g))); }
            x = mixv(r, 0.1L, 100, t); y = mixv(r, 0.1L, 100, t); g = call2(v, t, "beta", x, y, oc); h = call2(v, t, "beta", y, x, oc); L lb = fabsl(lgammal(x)) + fabsl(lgammal(y)) + fabsl(lgammal(x + y)); chk("beta", fabsl(g - h) <= 64 * W * E * (1 + lb) * fabsl(g) + 2 * MINN[t], "beta(x,y) = " + num(g) + ", beta(y,x) = " + num(h));
            x = rnd((L)r.uni(-1, 1), t); if (r.p(0.3)) x = mixv(r, 0, 1, t); y = 0; if (fabsl(x) < 1) { g = call1(v, t, "asin", x, oc); h = call1(v, t, "acos", x, oc); chk("asin", fabsl(g + h - P / 2) <= 32 * W * E * (1 + 1 / sqrtl((1 - x) * (1 + x))), "asin+acos = " + num(g + h)); }
            x = mixv(r, 0, 40, t); if (r.p(0.5)) x = -x; g = call1(v, t, "sinh", x, oc); h = call1(v, t, "cosh", x, oc); tn = call1(v, t, "tanh", x, oc); chk("tanh", fabsl(tn - g / h) <= 32 * W * E * (1 + fabsl(x)), "tanh = " + num(tn) + ", sinh/cosh = " + num(g / h)); chk("cosh", fabsl((h - g) * (h + g) - 1) <= 32 * W * E * (1 + fabsl(x)) * h * h, "cosh^2-sinh^2 = " + num((h - g) * (h + g)));
            x = mixv(r, 1e-3L, t == 0 ? 1e3L : 1e6L, t); y = rnd(floorl(x * r.uni(0, 1)), t); x = rnd(floorl(x), t); { L k2 = x - y; g = call2(v, t, "log_binomial_coef", x, y, oc); h = call2(v, t, "log_binomial_coef", x, k2, oc); chk("log_binomial_coef", fabsl(g - h) <= 64 * W * E * (1 + 3 * fabsl(lgammal(x + 1))), "log(n choose k) = " + num(g) + ", log(n choose n-k) = " + num(h)); }
            if (i % 4 == 0) { x = mixv(r, 0, 2, t); y = 0; g = call1(v, t, "erf", x, oc); h = call1(v, t, "erf_inv", g, oc); chk("erf_inv", fabsl(h - x) <= 64 * W * E * (1 + x + expl(x * x) * (1 + (L)erfamp((Q)x))), "erf_inv(erf(x)) = " + num(h)); }
            x = mixv(r, 0.1L, 100, t); y = mixv(r, 0.1L, 100, t); lb = fabsl(lgammal(x)) + fabsl(lgammal(y)) + fabsl(lgammal(x + y));
            if (i % 16 == 0) {
                { L z = mixv(r, 0, 1, t), z2 = r.p(0.5) ? rnd(z * (1 + expl(r.uni(-20, 0))), t) : mixv(r, z, 1, t); if (z2 >= z && z2 <= 1) { g = call3(v, t, "incomplete_beta", x, y, z, oc); h = call3(v, t, "incomplete_beta", x, y, z2, oc); chk("incomplete_beta", g <= h + 128 * W * E * (1 + lb), "I(x,y,z) = " + num(g) + " > I(x,y,w) = " + num(h) + " for z = " + num(z) + " < w = " + num(z2)); } }
                L z = mixv(r, 0, 1, t), zc = rnd(1 - z, t); if (1 - zc == z) { g = call3(v, t, "incomplete_beta", x, y, z, oc); h = call3(v, t, "incomplete_beta", y, x, zc, oc); chk("incomplete_beta", fabsl(g + h - 1) <= 128 * W * E * (1 + lb), "I(x,y,z)+I(y,x,1-z) = " + num(g + h) + " for z = " + num(z)); chk("incomplete_beta", g >= -64 * W * E * (1 + lb) && g <= 1 + 64 * W * E * (1 + lb), "not a probability: " + num(g)); }
                if (r.p(0.5)) x = mixv(r, 0.1L, 1500, t);
                L u = r.p(0.5) ? rnd(x * r.uni(0, 3), t) : r.p(0.5) ? rnd(x + sqrtl(x) * r.uni(-1, 1) * 12, t) : mixv(r, 1e-3L, 300, t); if (u <= 0) u = 1;
                L w = rnd(u * (1 + expl(r.uni(-12, 0))), t); L M = 1 + fabsl(lgammal(x)) + u + w + x * (fabsl(logl(u + 1e-30L)) + fabsl(logl(w + 1e-30L))); g = call2(v, t, "incomplete_gamma", x, u, oc); h = call2(v, t, "incomplete_gamma", x, w, oc);
                chk("incomplete_gamma", g <= h + 64 * W * E * M, "P(x,u) = " + num(g) + " > P(x,w) = " + num(h) + " for u = " + num(u) + " < w = " + num(w)); chk("incomplete_gamma", g >= -64 * W * E * M && g <= 1 + 64 * W * E * M, "not a probability: " + num(g) + " for u = " + num(u));
            }
        }
    }
    return 0;
}
static int mode_one(Args& A)       // replay: --fns name, rest: type letter and hexadecimal arguments
{
    int t = A.rest.empty() ? 1 : A.rest[0][0] == 'f' ? 0 : A.rest[0][0] == 'd' ? 1 : 2; L a[3] = { 0, 0, 0 }; for (size_t i = 1; i < A.rest.size() && i < 4; ++i) a[i - 1] = strtold(A.rest[i].c_str(), 0);
    for (auto& v : g_var) { auto it = v.fn[t].find(A.fns[0]); if (it == v.fn[t].end()) continue; int oc; L g = gcall(it->second, a, oc); printf("%s: %s = %s\n", v.name.c_str(), callstr(it->second, t, a).c_str(), oc ? outcome_name(oc) : num(g).c_str());
        if (const Spec* sp = find_spec(A.fns[0])) { Verdict d = sp->judge(a, t, g); if (d.region) printf("    reference %s, normalised error %g (region %s, limit %g)\n", num((L)d.ref).c_str(), d.nerr, d.region, limit(sp->name, d.region, t)); } }
    return 0;
}
static int mode_count(Args& A)     // distinct cases over all shards
{
    for (auto& p : A.rest) if (FILE* f = fopen(p.c_str(), "rb")) { uint64_t b[4096]; size_t n; while ((n = fread(b, 8, 4096, f)) > 0) for (size_t i = 0; i < n; ++i) g_distinct.insert(b[i]); fclose(f); }
    return 0;
}
static int run_mode(Args& A)
{
    g_specs = make_specs();
    if (A.mode == "acc") return mode_acc(A);
    if (A.mode == "ub") return mode_ub(A);
    if (A.mode == "prof") return mode_prof(A);
    if (A.mode == "cross") return mode_cross(A);
    if (A.mode == "special") return mode_special(A);
    if (A.mode == "exact") return mode_exact(A);
    if (A.mode == "exact32") return mode_exact32(A);
    if (A.mode == "acc32") return mode_acc32(A);
    if (A.mode == "inv") return mode_inv(A);
    if (A.mode == "one") return mode_one(A);
    if (A.mode == "count") return mode_count(A);
    return 3;
}
