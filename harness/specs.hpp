// Accuracy specifications: for each public function the reference value (binary128), the regions in which
// accuracy is claimed, and the error scale of each region.  An observation's normalised error is
//     |got - ref| / (eps(T) * scale),
// and must not exceed the region's limit K (tol_table.inc).
#pragma once
#include "mon.hpp"
#include <boost/multiprecision/float128.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
namespace bmp = boost::multiprecision;
typedef bmp::float128 BQ;
struct bpol_t { };
typedef boost::math::policies::policy<
    boost::math::policies::domain_error<boost::math::policies::ignore_error>, boost::math::policies::pole_error<boost::math::policies::ignore_error>,
    boost::math::policies::overflow_error<boost::math::policies::ignore_error>, boost::math::policies::underflow_error<boost::math::policies::ignore_error>,
    boost::math::policies::evaluation_error<boost::math::policies::ignore_error>, boost::math::policies::promote_double<false> > Pol;

struct Piece { L lo, hi; };                       // lo <= hi, same sign (or lo == 0)
struct Verdict { const char* region; Q ref; double nerr; };   // region null: nothing claimed here
struct Spec {
    const char* name; int arity;
    std::vector<Piece> dom;                       // for one-argument functions, positive pieces and negative ones
    std::function<void(Rng&, int, L*)> gen;       // for the others
    std::function<Verdict(const L*, int, L)> judge;
    double cost;                                  // relative cost of one case
    std::vector<L> anchors;
};

static Q qabs(Q x) { return fabsq(x); }
static double norm(Q ref, Q scale, L got, int t)
{
    if (ref != ref) return got != got ? 0 : 1e300;
    if (got != got) return 1e300;
    if (qabs(ref) > (Q)MAXV[t]) {
        if (fabsl(got) == INFL) return (got > 0) == (ref > 0) ? 0 : 1e300;
        if (isinfq(ref)) return got >= MAXV[t] * (1 - 1e-2L) ? 0 : 1e300;
    }
    if (fabsl(got) == INFL) {
        if ((got > 0) != (ref > 0)) return 1e300;
        return (double)(((Q)MAXV[t] - qabs(ref)) / ((Q)EPS[t] * scale));
    }
    Q err = qabs((Q)got - ref);
    if (qabs(ref) < 4 * (Q)MINN[t]) { err -= 2 * (Q)MINN[t]; if (err < 0) err = 0; }
    else { err -= 2 * (Q)DENM[t]; if (err < 0) err = 0; }
    if (err == 0) return 0;
    Q n = err / ((Q)EPS[t] * scale);
    return n < 1e300Q ? (double)n : 1e300;
}
static Verdict V(const char* region, Q ref, Q scale, L got, int t) { return Verdict{ region, ref, norm(ref, scale, got, t) }; }
static const Verdict NOCLAIM = { nullptr, 0, 0 };
static bool normal(L x, int t) { return x == 0 || (fabsl(x) >= MINN[t] && fabsl(x) <= MAXV[t]); }

static const Q QPI = M_PIq, QLN2 = M_LN2q, QLN10 = M_LN10q;
static Q lg(Q x) { return lgammaq(x); }
static Q gp(Q a, Q z) { return boost::math::gamma_p(BQ(a), BQ(z), Pol()).backend().value(); }
static Q gq(Q a, Q z) { return boost::math::gamma_q(BQ(a), BQ(z), Pol()).backend().value(); }
static Q gpd(Q a, Q z) { return boost::math::gamma_p_derivative(BQ(a), BQ(z), Pol()).backend().value(); }
static Q ib(Q a, Q b, Q z) { return boost::math::ibeta(BQ(a), BQ(b), BQ(z), Pol()).backend().value(); }
static Q ibd(Q a, Q b, Q z) { return boost::math::ibeta_derivative(BQ(a), BQ(b), BQ(z), Pol()).backend().value(); }

static Q erfamp(Q x) { Q z = qabs(x); return z <= 1 ? (Q)1 : z > 1.7000001Q ? (Q)1 : expq(2 * (z * z - 1)); }   // loss of the continued fraction used up to 1.7
static L expmax(int t) { return t == 0 ? 88.9L : t == 1 ? 709.9L : 11356.6L; }
static L any_pos(Rng& r, int t) { return mixv(r, MINN[t], MAXV[t], t); }

static std::vector<Spec> make_specs()
{
    std::vector<Spec> S;
    auto one = [&](const char* n, std::vector<Piece> d, std::function<Verdict(L, Q, int, L)> j, double cost = 1, std::vector<L> anchors = {}) {
        S.push_back(Spec{ n, 1, d, nullptr, [j](const L* a, int t, L g) { return j(a[0], (Q)a[0], t, g); }, cost, anchors });
    };
    auto many = [&](const char* n, int ar, std::function<void(Rng&, int, L*)> gen, std::function<Verdict(const L*, const Q*, int, L)> j, double cost = 1) {
        S.push_back(Spec{ n, ar, {}, gen, [j, ar](const L* a, int t, L g) { Q q[3] = { (Q)a[0], ar > 1 ? (Q)a[1] : 0, ar > 2 ? (Q)a[2] : 0 }; return j(a, q, t, g); }, cost, {} });
    };
    const L HUGEP = -1;   // placeholder: maximum of the type
    // ------------------------------------------------ exponential and logarithm
    one("exp", { {0, 2}, {2, 90}, {90, 710}, {710, 12000}, {-2, 0}, {-90, -2}, {-750, -90}, {-12000, -750}, {0, HUGEP} },
        [](L, Q x, int t, L g) { Q r = expq(x); return V(t == 2 && qabs(x) > 11000 ? nullptr : "all", r, r * (1 + qabs(x)) + (isinfq(r) ? 0 : 0), g, t); }, 1, { 2, 0.5L, 1.5L, 2.5L });
    one("expm1", { {0, 1e-3L}, {1e-3L, 2}, {2, 90}, {90, 710}, {-1e-3L, 0}, {-2, -1e-3L}, {-100, -2} },
        [](L a, Q x, int t, L g) { Q r = expm1q(x); if (fabsl(a) <= 1e-4L) return V("small", r, qabs(r), g, t); return V("large", r, qabs(r) + expq(x) * qabs(x) + 1, g, t); }, 1, { 1e-4L, -1e-4L });
    auto lgv = [](const char* , Q r, L a, L g, int t) { if (a >= 0.5L && a <= 1.5L) return V("near1", r, qabs(r), g, t); return V("far", r, qabs(r) + 1, g, t); };
    one("log",   { {0, HUGEP}, {0.5L, 1.5L}, {1, 10}, {10, 1e6L}, {1e-6L, 1} }, [lgv](L a, Q x, int t, L g) { if (!normal(a,t) || a <= 0) return NOCLAIM; return lgv("", logq(x), a, g, t); }, 1, { 0.5L, 1.5L, 1, 2, 10, 100, 0.1L, 0.01L, 1e-3L, 1e-4L });
    one("log2",  { {0, HUGEP}, {0.5L, 1.5L}, {1, 10}, {10, 1e6L}, {1e-6L, 1} }, [lgv](L a, Q x, int t, L g) { if (!normal(a,t) || a <= 0) return NOCLAIM; return lgv("", log2q(x), a, g, t); });
    one("log10", { {0, HUGEP}, {0.5L, 1.5L}, {1, 10}, {10, 1e6L}, {1e-6L, 1} }, [lgv](L a, Q x, int t, L g) { if (!normal(a,t) || a <= 0) return NOCLAIM; return lgv("", log10q(x), a, g, t); });
    one("log1p", { {0, HUGEP}, {0, 1e-3L}, {1e-3L, 10}, {-1e-3L, 0}, {-1, -1e-3L} },
        [](L a, Q x, int t, L g) { if (!(a > -1)) return NOCLAIM; Q r = log1pq(x); if (fabsl(a) <= 1e-4L) return V("small", r, qabs(r), g, t); return V("far", r, qabs(r) + 1, g, t); }, 1, { 1e-4L, -1e-4L });
    // ------------------------------------------------ roots and powers
    one("sqrt", { {0, HUGEP}, {0, 4}, {4, 1e9L} }, [](L a, Q x, int t, L g) { if (!normal(a,t) || a < 0) return NOCLAIM; Q r = sqrtq(x); return V("all", r, r, g, t); }, 1, { 4, 100, 1e4L, 1e6L, 1e8L });
    one("inv_sqrt", { {0, HUGEP}, {0, 4}, {4, 1e9L} }, [](L a, Q x, int t, L g) { if (!normal(a,t) || a <= 0) return NOCLAIM; Q r = 1 / sqrtq(x); return V("all", r, r, g, t); });
    many("hypot", 2, [](Rng& r, int t, L* a) {
            a[0] = any_pos(r, t) * r.sign(); int m = (int)r.below(10);
            a[1] = m < 4 ? rnd(a[0] * expl(r.uni(-45, 45)), t) : m < 6 ? rnd(a[0] * r.uni(0, 2), t) : m < 7 ? 0 : any_pos(r, t) * r.sign();
            if (m == 8) { a[0] = mixv(r, 0, 1000, t); a[1] = mixv(r, 0, 1000, t); }
            if (r.p(0.1)) a[1] = -a[1]; if (r.p(0.5)) std::swap(a[0], a[1]); },
        [](const L* a, const Q* q, int t, L g) { if (!normal(a[0],t) || !normal(a[1],t)) return NOCLAIM; Q r = hypotq(q[0], q[1]); return V("all", r, r, g, t); });
    many("pow", 2, [](Rng& r, int t, L* a) {
            int m = (int)r.below(4);
            a[0] = m < 2 ? mixv(r, 1e-3L, 1000, t) : any_pos(r, t);
            L l = fabsl(logl(a[0])); L hi = expmax(t) * 0.98L / (l > 1e-6L ? l : 1e-6L);
            a[1] = m == 1 ? mixv(r, 0, std::min(hi, (L)50), t) : rnd(r.uni(0, hi), t);
            if (r.p(0.1)) a[1] = rnd(floorl(a[1]) + (r.p(0.5) ? 0.5L : 0), t);
            if (r.p(0.5)) a[1] = -a[1]; },
        [](const L* a, const Q* q, int t, L g) { if (!normal(a[0],t) || a[0] <= 0 || !normal(a[1],t)) return NOCLAIM; if (t == 2 && fabsl(a[1] * logl(a[0])) > 11000) return NOCLAIM;
            Q r = powq(q[0], q[1]); return V("all", r, r * (1 + qabs(q[1] * logq(q[0]))), g, t); });
    many("powi", 2, [](Rng& r, int t, L* a) {
            int m = (int)r.below(4);
            a[0] = (m < 2 ? mixv(r, 1e-3L, 1000, t) : m == 2 ? mixv(r, 0.9L, 1.1L, t) : any_pos(r, t)) * r.sign();
            L l = fabsl(logl(fabsl(a[0]))); L hi = expmax(t) / (l > 1e-9L ? l : 1e-9L); if (hi > 2e9L) hi = 2e9L;
            a[1] = m == 1 ? floorl(r.uni(0, std::min(hi, (L)20))) : floorl(r.p(0.5) ? r.uni(0, hi) : expl(r.uni(0, logl(hi + 1))));
            if (r.p(0.4)) a[1] = -a[1]; },
        [](const L* a, const Q* q, int t, L g) { if (!normal(a[0],t) || (a[0] == 0 && a[1] < 0)) return NOCLAIM;
            Q m = powq(qabs(q[0]), q[1]); Q r = (a[0] < 0 && fmodl(fabsl(a[1]), 2) == 1) ? -m : m; if (a[0] == 0) r = a[1] == 0 ? 1 : 0;
            if (m > (Q)MAXV[t] || m < 4 * (Q)MINN[t]) return Verdict{ "range", r, m > (Q)MAXV[t] ? (fabsl(g) > MAXV[t] * 0.99L && (g > 0) == (r > 0) ? 0 : (m * (1 - (1 + qabs(q[1])) * (Q)EPS[t]) < (Q)MAXV[t] ? norm(r, m * (1 + qabs(q[1])), g, t) : 1e300)) : (fabsl(g) <= 8 * MINN[t] ? 0 : 1e300) };
            return V("all", r, m * (1 + qabs(q[1])), g, t); });
    // ------------------------------------------------ trigonometric
    std::vector<L> trig; for (int k = 0; k <= 64; ++k) trig.push_back(k * 0.785398163397448309615660845819875721L);
    for (int k : { 100, 1000, 12345, 99999 }) trig.push_back(k * 1.57079632679489661923132169163975144L);
    trig.insert(trig.end(), { 1.55L, 1.6L, 1.4L, 1, 3.1L, 3.2L, 2.8L, 2 });
    auto trigdom = std::vector<Piece>{ {0, 1}, {1, 3.2L}, {3.2L, 7}, {7, 100}, {100, 1e4L}, {1e4L, 1e6L}, {-3.2L, 0}, {-100, -3.2L}, {-1e6L, -100}, {0, 1e-6L} };
    auto trigreg = [](L a, int t) -> const char* { L x = fabsl(a); return x <= 6.2831853071795L ? "core" : x <= (t == 0 ? 1e4L : 1e6L) ? "wide" : nullptr; };
    one("sin", trigdom, [trigreg](L a, Q x, int t, L g) { auto R = trigreg(a, t); if (!R || !normal(a,t)) return NOCLAIM; Q r = sinq(x); return V(R, r, qabs(r) + qabs(x * cosq(x)), g, t); }, 1, trig);
    one("cos", trigdom, [trigreg](L a, Q x, int t, L g) { auto R = trigreg(a, t); if (!R || !normal(a,t)) return NOCLAIM; Q r = cosq(x); return V(R, r, qabs(r) + qabs(x * sinq(x)), g, t); }, 1, trig);
    one("tan", trigdom, [trigreg](L a, Q x, int t, L g) { auto R = trigreg(a, t); if (!R || !normal(a,t)) return NOCLAIM; if (fabsl(a) == rnd(1.57079632679489661923132169163975144L, t)) return NOCLAIM; Q r = tanq(x); if (qabs(x) > 20 && qabs(r) * qabs(x) * EPS[t] * 16 > 1) return NOCLAIM; return V(R, r, qabs(r) + qabs(x) * (1 + r * r), g, t); }, 1, trig);
    one("asin", { {0, 1}, {-1, 0}, {0.5L, 1}, {0.99L, 1} }, [](L a, Q x, int t, L g) { if (fabsl(a) > 1 || !normal(a,t)) return NOCLAIM; Q r = asinq(x); return V("all", r, qabs(r) + (fabsl(a) == 1 ? 0 : qabs(x) / sqrtq((1 - x) * (1 + x))), g, t); });
    one("acos", { {0, 1}, {-1, 0}, {0.5L, 1}, {0.99L, 1}, {-1, -0.99L} }, [](L a, Q x, int t, L g) { if (fabsl(a) > 1 || !normal(a,t)) return NOCLAIM; Q r = acosq(x); return V("all", r, qabs(r) + (fabsl(a) == 1 ? 0 : qabs(x) / sqrtq((1 - x) * (1 + x))), g, t); });
    one("atan", { {0, 1}, {1, 3}, {2.4L, 30}, {30, 1e8L}, {0, HUGEP}, {-3, 0}, {-1e8L, -3} }, [](L a, Q x, int t, L g) { if (!normal(a,t)) return NOCLAIM; Q r = atanq(x); return V(fabsl(a) <= 2.5L ? "cf" : "series", r, qabs(r), g, t); }, 1, { 0.5L, 1, 1.5L, 2, 2.5L, 3, 4, 5, 7, 11, 25, 100, 1000 });
    many("atan2", 2, [](Rng& r, int t, L* a) {
            int m = (int)r.below(10); a[0] = any_pos(r, t); a[1] = m < 5 ? rnd(a[0] * expl(r.uni(-40, 40)), t) : any_pos(r, t);
            if (m == 6) { a[0] = mixv(r, 0, 100, t); a[1] = mixv(r, 0, 100, t); } if (m == 7) a[0] = 0; if (m == 8) a[1] = 0; if (m == 9) a[1] = rnd(a[0] * mixv(r, 0.1L, 1000, t), t);
            if (r.p(0.5)) a[0] = -a[0]; if (r.p(0.5)) a[1] = -a[1]; },
        [](const L* a, const Q* q, int t, L g) { if (!normal(a[0],t) || !normal(a[1],t)) return NOCLAIM; Q r = atan2q(q[0], q[1]); return V("all", r, qabs(r), g, t); });
    // ------------------------------------------------ hyperbolic
    auto hyp = std::vector<Piece>{ {0, 1}, {1, 3}, {3, 90}, {90, 709}, {709, 712}, {-1, 0}, {-90, -1}, {-712, -90}, {0, 1e-6L}, {88, 90} };
    one("sinh", hyp, [](L a, Q x, int t, L g) { if (!normal(a,t) || (t == 2 && fabsl(a) > 11000)) return NOCLAIM; if (fabsl(a) > expmax(t) - 1.4L && fabsl(a) < expmax(t) + 0.9L) return NOCLAIM; Q r = sinhq(x); return V("all", r, qabs(r) * (1 + qabs(x)) + 1, g, t); });
    one("cosh", hyp, [](L a, Q x, int t, L g) { if (!normal(a,t) || (t == 2 && fabsl(a) > 11000)) return NOCLAIM; if (fabsl(a) > expmax(t) - 1.4L && fabsl(a) < expmax(t) + 0.9L) return NOCLAIM; Q r = coshq(x); return V("all", r, qabs(r) * (1 + qabs(x)), g, t); });
    one("tanh", { {0, 1}, {1, 5}, {5, 30}, {30, 1e4L}, {0, HUGEP}, {-5, 0}, {-30, -5} }, [](L a, Q x, int t, L g) { if (!normal(a,t)) return NOCLAIM; Q r = tanhq(x); return V("all", r, qabs(r), g, t); }, 1, { 20, 23, 22 });
    one("asinh", { {0, 1}, {1, 100}, {100, 1e10L}, {0, HUGEP}, {-1, 0}, {-100, -1}, {-1e30L, -100} }, [](L a, Q x, int t, L g) { if (!normal(a,t)) return NOCLAIM; Q r = asinhq(x); return V("all", r, qabs(r) + 1, g, t); });
    one("acosh", { {1, 2}, {2, 100}, {100, 1e10L}, {1, HUGEP} }, [](L a, Q x, int t, L g) { if (a < 1 || a > MAXV[t]) return NOCLAIM; Q r = acoshq(x); return V("all", r, qabs(r) + 1 + (a == 1 ? 0 : x / sqrtq((x - 1) * (x + 1))), g, t); }, 1, { 1 });
    one("atanh", { {0, 1}, {-1, 0}, {0.9L, 1}, {0, 1e-3L} }, [](L a, Q x, int t, L g) { if (!(fabsl(a) < 1) || !normal(a,t)) return NOCLAIM; Q r = atanhq(x); return V("all", r, qabs(r) + 1, g, t); });
    // ------------------------------------------------ gamma family
    one("lgamma", { {0, 0.5L}, {0.4L, 3}, {3, 200}, {200, 1e6L}, {0, 1e-3L}, {1e6L, 1e36L} }, [](L a, Q x, int t, L g) { if (a < MINN[t] || a > (t == 0 ? 1e36L : t == 1 ? 1e305L : 1e4000L)) return NOCLAIM; Q r = lg(x); return V("all", r, qabs(r) + 1, g, t); }, 2, { 0.5L, 1, 1.5L, 2 });
    one("tgamma", { {0, 1}, {1, 36}, {30, 175}, {170, 1760}, {-36, -1}, {-1, 0}, {-180, -36}, {-1800, -180} }, [](L a, Q x, int t, L g) {
            if (!normal(a,t) || a == 0 || (a < 0 && floorl(a) == a)) return NOCLAIM; if (a > 0 && 1 / a > MAXV[t]) return NOCLAIM; if (a < 0 && fabsl(a) < 4 / MAXV[t]) return NOCLAIM;
            
            Q r = tgammaq(x); if (a > 0) return V("pos", r, qabs(r) * (1 + qabs(lg(x))), g, t);
            return V("neg", r, qabs(r) * (1 + qabs(x) + qabs(lg(x))), g, t); }, 2, { 0.5L, 1, 2, 171.5L, 35, -0.5L, -1.5L, -2.5L });
    one("factorial", { {0, 2}, {0, 33}, {30, 170}, {170, 1754}, {-1, 0}, {-36, -1}, {-180, -36} }, [](L a, Q x, int t, L g) { if (!normal(a,t) || (a < 0 && (floorl(a) == a || fabsl(a + 1) < 4 / MAXV[t]))) return NOCLAIM; Q r = tgammaq(x + 1); return V(a < 0 ? "neg" : "all", r, qabs(r) * (1 + qabs(lg(x + 1)) + qabs(x)), g, t); }, 2);
    auto ab = [](Rng& r, int t, L* a) { int m = (int)r.below(6); L hi = t == 0 ? 1e4L : 1e6L; a[0] = m < 3 ? mixv(r, 0.01L, 20, t) : mixv(r, 1e-3L, hi, t); a[1] = m % 3 == 0 ? mixv(r, 0.01L, 20, t) : m == 5 ? a[0] : mixv(r, 1e-3L, hi, t); };
    many("lbeta", 2, ab, [](const L* a, const Q* q, int t, L g) { if (a[0] < 1e-3L || a[1] < 1e-3L || a[0] > 1e6L || a[1] > 1e6L) return NOCLAIM; Q x = lg(q[0]), y = lg(q[1]), z = lg(q[0] + q[1]); return V("all", x + y - z, 1 + qabs(x) + qabs(y) + qabs(z), g, t); }, 3);
    many("beta", 2, ab, [](const L* a, const Q* q, int t, L g) { if (a[0] < 1e-3L || a[1] < 1e-3L || a[0] > 1e6L || a[1] > 1e6L) return NOCLAIM; Q x = lg(q[0]), y = lg(q[1]), z = lg(q[0] + q[1]); Q r = expq(x + y - z); if (x + y - z < -11000) return NOCLAIM; return V("all", r, r * (1 + qabs(x) + qabs(y) + qabs(z)), g, t); }, 3);
    many("log_binomial_coef", 2, [](Rng& r, int t, L* a) { L hi = t == 0 ? 1e3L : 1e6L; a[0] = r.p(0.5) ? mixv(r, 0.01L, 100, t) : mixv(r, 1, hi, t); a[1] = rnd(a[0] * r.u(), t); if (r.p(0.5)) { a[0] = floorl(a[0]); a[1] = floorl(a[1]); } if (r.p(0.05)) a[1] = 0; if (r.p(0.05)) a[1] = a[0]; },
        [](const L* a, const Q* q, int t, L g) { if (a[0] < a[1] || a[1] < 0 || a[0] > 1e6L) return NOCLAIM; Q x = lg(q[0] + 1), y = lg(q[1] + 1), z = lg(q[0] - q[1] + 1); return V("all", x - y - z, 1 + qabs(x) + qabs(y) + qabs(z) + q[0], g, t); }, 3);
    many("lmgamma", 2, [](Rng& r, int t, L* a) { a[1] = (L)(1 + r.below(r.p(0.7) ? 6 : 20)); L lo = (a[1] - 1) / 2; a[0] = rnd(lo + (r.p(0.7) ? mixv(r, 0.01L, 20, t) : mixv(r, 0.01L, 1000, t)), t); },
        [](const L* a, const Q* q, int t, L g) { if (a[1] < 1 || a[0] <= (a[1] - 1) / 2 + 0.005L || a[0] > 2000) return NOCLAIM; Q s = q[1] * (q[1] - 1) / 4 * logq(QPI), m = 1 + s; for (int j = 0; j < (int)a[1]; ++j) { Q v = lg(q[0] - (Q)j / 2); s += v; m += qabs(v); }
            m += 8 * (Q)a[0] * 0; return V("all", s, m, g, t); }, 4);
    // ------------------------------------------------ error function
    one("erf", { {0, 1}, {1, 2.2L}, {2, 8}, {0, 1e-6L}, {-2.2L, 0}, {-8, -2}, {8, 1e4L} }, [](L a, Q x, int t, L g) { if (!normal(a,t)) return NOCLAIM; Q r = erfq(x); L z = fabsl(a); return V(z <= 1.7000001L ? "cf" : "large", r, qabs(r) * erfamp(x), g, t); }, 1, { 1.7L, 2.1L, 1, 2, 7 });
    one("erf_inv", { {0, 1}, {-1, 0}, {0, 1e-4L}, {0.9L, 1}, {0.999L, 1}, {-1, -0.99L} }, [](L a, Q p, int t, L g) {
            if (!(fabsl(a) < 1) || !normal(a,t)) return NOCLAIM; if (g != g || fabsl(g) == INFL) return Verdict{ "all", p, 1e300 };
            Q y = (Q)g, d = 2 / sqrtq(QPI) * expq(-y * y), r = a > 0 ? (a > 0.5L ? (1 - p) - erfcq(y) : erfq(y) - p) : (a < -0.5L ? erfcq(-y) - (1 + p) : erfq(y) - p);
            Q sc = (Q)EPS[t] * (qabs(p) * std::max(erfamp(y), erfamp(y * 0.98Q)) + qabs(y) * d) + 2 * (Q)MINN[t]; return Verdict{ fabsl(a) <= 0.9L ? "core" : "tail", p, (double)(qabs(r) / sc) }; }, 3, { 0.5L, 0.9L });
    // ------------------------------------------------ incomplete gamma and beta
    auto gen_ig = [](Rng& r, int t, L* a) {
        int m = (int)r.below(10); a[0] = m < 4 ? mixv(r, 0.1L, 12, t) : m < 7 ? mixv(r, 10, 120, t) : mixv(r, 0.05L, 2000, t);
        int k = (int)r.below(8); L s = sqrtl(a[0]);
        a[1] = k < 4 ? a[0] + s * r.uni(-9, 11) : k == 4 ? a[0] * r.uni(0, 4) : k == 5 ? a[0] + r.uni(8, 12) : k == 6 ? 3 * a[0] * (1 + r.uni(-0.02L, 0.02L)) : mixv(r, 1e-3L, 3000, t);
        if (r.p(0.1)) a[1] = a[0] + s * (L)((int)r.below(23) - 11); if (r.p(0.1)) { a[0] = roundl(a[0]); a[1] = roundl(a[1]); if (a[0] < 1) a[0] = 1; }
        if (!(a[1] > 0)) a[1] = a[0] * expl(r.uni(-10, 0)); a[1] = rnd(a[1], t); };
    auto igreg = [](const L* a) -> const char* { if (a[0] < 0.05L || a[0] > 2000 || a[1] > 10000 || a[1] < 1e-3L) return nullptr;
        if (a[0] < 10) return a[1] - a[0] < 10 ? "cf1" : "cf2"; if (a[1] / a[0] > 3) return "cf2"; return a[0] < 100 ? "quad" : "quadhi"; };
    many("incomplete_gamma", 2, gen_ig, [igreg](const L* a, const Q* q, int t, L g) { auto R = igreg(a); if (!R) return NOCLAIM; Q r = gp(q[0], q[1]);
            Q M = qabs(q[0] * logq(q[1])) + q[1] + qabs(lg(q[0])); return V(R, r, 1 + M, g, t); }, 10);
    many("incomplete_gamma_inv", 2, [gen_ig](Rng& r, int t, L* a) { L b[2]; gen_ig(r, t, b); a[0] = b[0]; if (r.p(0.6)) { a[1] = rnd((L)gp(b[0], b[1]), t); } else a[1] = r.p(0.5) ? r.u() : mixv(r, 1e-6L, 1, t); a[1] = rnd(a[1], t); },
        [](const L* a, const Q* q, int t, L g) { if (a[0] < 0.1L || a[0] > 1000 || a[1] < 1e-6L || a[1] > 1 - 1e-6L || (t == 0 && (a[1] < 0.01L || a[1] > 0.99L))) return NOCLAIM; if (g != g || g < 0 || g == INFL) return Verdict{ "all", q[1], 1e300 };
            Q y = (Q)g; if (g == 0) y = 1e-4000Q; Q v = gp(q[0], y); Q M = qabs(q[0] * logq(y)) + y + qabs(lg(q[0])); Q d = gpd(q[0], y) * y;
            return Verdict{ a[0] <= 1 ? "lo" : a[0] < 10 ? "mid" : "hi", q[1], (double)(qabs(v - q[1]) / ((Q)EPS[t] * (1 + M + d))) }; }, 25);
    auto gen_ib = [](Rng& r, int t, L* a) {
        int m = (int)r.below(4); L hi = m < 2 ? 10 : m == 2 ? 100 : 1000; a[0] = mixv(r, 0.1L, hi, t); a[1] = r.p(0.2) ? a[0] : mixv(r, 0.1L, hi, t); if (r.p(0.15)) { a[0] = std::max((L)1, roundl(a[0])); a[1] = std::max((L)1, roundl(a[1])); }
        L mu = a[0] / (a[0] + a[1]), sd = sqrtl(mu * (1 - mu) / (a[0] + a[1] + 1)); int k = (int)r.below(6);
        a[2] = k < 3 ? mu + sd * r.uni(-6, 6) : k == 3 ? (a[0] + 1) / (a[0] + a[1] + 2) * (1 + r.uni(-1e-3L, 1e-3L)) : k == 4 ? mixv(r, 0, 1, t) : 1 - mixv(r, 0, 1, t);
        if (a[2] < 0 || a[2] > 1) a[2] = r.u(); a[2] = rnd(a[2], t); };
    many("incomplete_beta", 3, gen_ib, [](const L* a, const Q* q, int t, L g) { if (a[0] < 0.1L || a[1] < 0.1L || a[0] > 1000 || a[1] > 1000 || !(a[2] >= 0 && a[2] <= 1) || !normal(a[2],t)) return NOCLAIM;
            Q r = a[2] == 0 ? 0 : a[2] == 1 ? 1 : ib(q[0], q[1], q[2]); Q M = a[2] == 0 || a[2] == 1 ? 0 : qabs(lg(q[0])) + qabs(lg(q[1])) + qabs(lg(q[0] + q[1])) + qabs(q[0] * logq(q[2])) * (r > 0.5Q ? 1 : 1); if (M > 1e5Q) M = 1e5Q;
            Q N = 1 + qabs(lg(q[0])) + qabs(lg(q[1])) + qabs(lg(q[0] + q[1])); (void)M; return V(a[0] <= 10 && a[1] <= 10 ? "lo" : a[0] <= 100 && a[1] <= 100 ? "mid" : "hi", r, N, g, t); }, 20);
    many("incomplete_beta_inv", 3, [gen_ib](Rng& r, int t, L* a) { gen_ib(r, t, a); if (a[0] > 100) a[0] = rnd(a[0] / 10, t); if (a[1] > 100) a[1] = rnd(a[1] / 10, t); if (r.p(0.5)) a[2] = rnd((L)ib(a[0], a[1], a[2] > 0 && a[2] < 1 ? (Q)a[2] : 0.5Q), t); },
        [](const L* a, const Q* q, int t, L g) { if (a[0] < 0.1L || a[1] < 0.1L || a[0] > 100 || a[1] > 100 || a[2] < 1e-6L || a[2] > 1 - 1e-6L) return NOCLAIM; if ((logq(q[2] * q[0]) + lg(q[0]) + lg(q[1]) - lg(q[0] + q[1])) / q[0] < logq((Q)MINN[t] * 1e4Q)) return NOCLAIM; if (g != g || g < 0 || g > 1) return Verdict{ "all", q[2], 1e300 };
            auto at = [&](L y) { return y <= 0 ? (Q)0 : y >= 1 ? (Q)1 : ib(q[0], q[1], (Q)y); };      // p must lie in the image of g +- 4 ulp, up to the error of I itself
            Q lo = at(stepu(g, t, -4)), hi = at(stepu(g, t, 4)), r = q[2] < lo ? lo - q[2] : q[2] > hi ? q[2] - hi : 0; Q N = 1 + qabs(lg(q[0])) + qabs(lg(q[1])) + qabs(lg(q[0] + q[1]));
            return Verdict{ a[0] < 1 || a[1] < 1 ? "lo" : a[0] <= 10 && a[1] <= 10 ? "mid" : "hi", q[2], (double)(r / ((Q)EPS[t] * N)) }; }, 50);
    return S;
}
