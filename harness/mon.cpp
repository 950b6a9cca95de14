#include "specs.hpp"

struct Args {
    std::string mode, out, lits; std::vector<std::string> fns, vars; uint64_t seed = 1; int shard = 0, nsh = 1; double budget = 1; bool calib = false;
    std::vector<std::string> rest;
};
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v; size_t i = 0; while (i <= s.size()) { size_t k = s.find(c, i); if (k == std::string::npos) k = s.size(); if (k > i) v.push_back(s.substr(i, k - i)); i = k + 1; } return v; }

struct TolRow { const char* fn; const char* region; double k[3]; };
static const TolRow g_tol[] = {
#include "tol_table.inc"
    { nullptr, nullptr, { 0, 0, 0 } } };
static double limit(const char* fn, const char* region, int t)
{
    for (const TolRow* r = g_tol; r->fn; ++r) if (!strcmp(r->fn, fn) && !strcmp(r->region, region)) return r->k[t];
    return -1;
}

// systematic points for a one-argument function
static std::vector<L> systematic(const Spec& s, int t)
{
    std::vector<L> base = g_lits;
    for (L x : s.anchors) base.push_back(fabsl(x));
    for (int i = 1; i <= 400; ++i) base.push_back(i);
    for (int i = 1; i <= 200; ++i) { base.push_back(i / 2.0L); base.push_back(i / 4.0L); base.push_back(i / 10.0L); base.push_back(i / 100.0L); }
    for (int e = -330; e <= 310; ++e) { base.push_back(exp2l(e)); if (e % 2 == 0) base.push_back(powl(10, e)); }
    for (int e = 320; e < 1100; e += 13) { base.push_back(exp2l(e)); base.push_back(exp2l(-e)); }
    L lo = 0, hi = 0; for (auto& p : s.dom) { L h = p.hi == -1 && p.lo >= 0 ? MAXV[t] : p.hi; lo = std::min(lo, p.lo); hi = std::max(hi, h); if (p.lo > 0 && lo == 0 && &p == &s.dom[0]) lo = 0; }
    std::vector<L> v;
    static const L off[] = { 0, 1e-3L, -1e-3L, 1e-6L, -1e-6L, 1e-9L, -1e-9L, 0.02L, -0.02L };
    for (L b : base) for (int sg = 1; sg >= -1; sg -= 2) {
        for (L o : off) { L x = rnd(sg * b * (1 + o), t); if (x >= lo && x <= hi) v.push_back(x); }
        L x = rnd(sg * b, t); if (fabsl(x) <= MAXV[t]) for (int k : { -2, -1, 1, 2, 7, -7 }) { L y = stepu(x, t, k); if (y >= lo && y <= hi) v.push_back(y); }
    }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
static L gen1(const Spec& s, Rng& r, int t)
{
    const Piece& p = s.dom[r.below(s.dom.size())];
    if (p.hi <= 0 && p.hi != -1) return -mixv(r, -p.hi, -p.lo, t);
    if (p.hi == -1 && p.lo < 0) return -mixv(r, 1, -p.lo, t);
    L hi = p.hi == -1 ? MAXV[t] : std::min(p.hi, MAXV[t]);
    return mixv(r, p.lo, hi, t);
}

static void acc_case(const Spec& s, int t, const L* a, bool calib, const std::vector<Variant*>& vs)
{
    bool claimed = false; L last[8]; Verdict lv[8]; int nl = 0;
    for (Variant* v : vs) {
        auto it = v->fn[t].find(s.name); if (it == v->fn[t].end()) continue;
        int oc; g_ubn = 0; L g = gcall(it->second, a, oc); ++g_eval;
        if (g_ubn) violation(s.name, t, a, s.arity, v->name, std::string(s.name) + "(" + argstr(a, s.arity) + "): " + g_ubwhat);
        if (oc) { violation(s.name, t, a, s.arity, v->name, std::string("call did not return: ") + outcome_name(oc)); continue; }
        // identical results need no second judgement
        Verdict d; bool found = false; for (int i = 0; i < nl; ++i) if (same(last[i], g)) { d = lv[i]; found = true; break; }
        if (!found) { d = s.judge(a, t, g); if (nl < 8) { last[nl] = g; lv[nl++] = d; } }
        if (!d.region) { ++g_count["outside the claimed region"]; continue; }
        claimed = true;
        std::string key = std::string(s.name) + "/" + d.region + "/" + TC[t];
        auto& w = g_worst[key]; if (d.nerr > w.first || w.second.empty()) { w.first = d.nerr; w.second = argstr(a, s.arity) + " -> " + num(g) + " [" + v->name + "]"; }
        if (calib) continue;
        double k = limit(s.name, d.region, t);
        if (k >= 0 && !(d.nerr <= k)) {
            char b[256]; snprintf(b, sizeof b, " normalised error %.4g exceeds %.4g (region %s)", d.nerr, k, d.region);
            violation(s.name, t, a, s.arity, v->name, std::string(s.name) + "(" + argstr(a, s.arity) + ") = " + num(g) + ", reference " + num((L)d.ref) + "," + b);
        }
    }
    if (claimed) { ++g_count["claimed cases"]; seen(s.name, t, a, s.arity); if (g_eval % 40009 < 3) sample(std::string(s.name) + "<" + TC[t] + ">(" + argstr(a, s.arity) + ")"); }
}

static int mode_acc(Args& A)
{
    for (auto& v : g_var) if (v.set_ub) v.set_ub(ub_sink);
    auto S = make_specs(); std::vector<Variant*> vs; for (auto& v : g_var) vs.push_back(&v);
    for (auto& s : S) {
        if (std::find(A.fns.begin(), A.fns.end(), s.name) == A.fns.end()) continue;
        for (int t = 0; t < 3; ++t) {
            Rng r(A.seed * 1000003 + A.shard * 7919 + t * 104729 + std::hash<std::string>()(s.name));
            if (s.arity == 1) {
                auto v = systematic(s, t);
                size_t stride = s.cost > 4 ? 4 : 1;
                for (size_t i = A.shard; i < v.size(); i += A.nsh * stride) acc_case(s, t, &v[i], A.calib, vs);
            }
            uint64_t n = (uint64_t)(A.budget / s.cost / A.nsh);
            for (uint64_t i = 0; i < n; ++i) { L a[3] = { 0, 0, 0 }; if (s.arity == 1) a[0] = gen1(s, r, t); else s.gen(r, t, a); acc_case(s, t, a, A.calib, vs); }
        }
    }
    return 0;
}
#include "modes.hpp"

int main(int argc, char** argv)
{
    Args A;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (k == "--mode") A.mode = val(); else if (k == "--out") A.out = val(); else if (k == "--hashes") g_hashes = val(); else if (k == "--lits") A.lits = val();
        else if (k == "--fns") A.fns = split(val(), ','); else if (k == "--var") A.vars.push_back(val()); else if (k == "--seed") A.seed = strtoull(val().c_str(), 0, 10);
        else if (k == "--shard") { auto p = split(val(), '/'); A.shard = atoi(p[0].c_str()); A.nsh = atoi(p[1].c_str()); }
        else if (k == "--budget") A.budget = atof(val().c_str()); else if (k == "--calib") A.calib = true; else A.rest.push_back(k);
    }
    if (!A.out.empty()) { g_out = fopen(A.out.c_str(), "w"); if (!g_out) return 3; }
    if (!A.lits.empty()) load_literals(A.lits.c_str());
    for (auto& v : A.vars) if (!load_variant(v)) return 3;
    install_guards();
    int rc = run_mode(A);
    finish();
    return rc;
}
