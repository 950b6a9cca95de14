"""C01, C02: constant evaluation.  Generated translation units bind one case per line to a constexpr variable.  The
compilers' constant evaluators interpret the library and reject every undefined operation, every step that is not
constant, and every evaluation that exceeds their default depth or step limits (C01); the program then evaluates the
same cases at run time through volatile arguments and compares the bits (C02)."""
import math, os, random, re, struct

CONFIGS = [('g++', 'c++11'), ('g++', 'c++14'), ('g++', 'c++17'), ('g++', 'c++20'), ('clang++', 'c++11'), ('clang++', 'c++14'), ('clang++', 'c++17'), ('clang++', 'c++20')]
CONFIGS_RUN = [('g++', 'c++11', '-O0'), ('g++', 'c++17', '-O2'), ('clang++', 'c++11', '-O1'), ('clang++', 'c++20', '-O0')]
T = {'f': ('float', 'f'), 'd': ('double', ''), 'l': ('long double', 'L'), 'i': ('int', ''), 'u': ('unsigned', 'u'), 'x': ('long long', 'LL'), 'y': ('unsigned long long', 'ULL')}
INT = {'i': (-2**31, 2**31 - 1), 'u': (0, 2**32 - 1), 'x': (-2**63, 2**63 - 1), 'y': (0, 2**64 - 1)}


class Num(str):
    """A long double beyond the range of Python's floats, as its literal."""


def approx(x):
    return float(x[:-1]) if isinstance(x, Num) else x


def lit(x, t):
    if isinstance(x, str):
        return x
    if isinstance(x, int):
        if t in INT:
            return '(%d%s-1)' % (x + 1, T[t][1]) if x == INT[t][0] and x else '%d%s' % (x, T[t][1])
        return '(-2147483647-1)' if x == -2147483648 else '%d' % x
    ct, suf = T[t]
    if x != x:
        return 'std::numeric_limits<%s>::quiet_NaN()' % ct
    if math.isinf(x):
        return ('-' if x < 0 else '') + 'std::numeric_limits<%s>::infinity()' % ct
    s = '%.17g' % x
    if not re.search(r'[.e]', s):
        s += '.0'
    return s + suf


def rnd(x, t):
    if t == 'f' and x == x and not math.isinf(x):
        try:
            return struct.unpack('f', struct.pack('f', x))[0]
        except OverflowError:
            return math.copysign(math.inf, x)
    return x


class Gen:
    def __init__(self, seed, lits):
        self.r = random.Random('gcem-constexpr-%d' % seed)

        def derived(cs):
            d = set()
            for c in cs:
                for v in (c, c * c, math.sqrt(c), 2 * c, c / 2, 1 / c, c + 1, abs(c - 1), c * math.pi, c * math.pi / 2):
                    if 0 < v < 1e308:
                        d.add(v)
            return sorted(d)
        self.lits = derived(lits)
        self.novel = derived(lits.novel)         # empty unless a header's literals differ from the recorded ones

    def pos(self, lo, hi, t):
        r = self.r
        lo0 = max(lo, 1.2e-38 if t == 'f' else 2.3e-308)
        for _ in range(60):
            m = r.random()
            if self.novel and r.random() < 0.2:
                c = [v for v in self.novel if lo <= v <= hi]
                if not c:
                    continue
                x = r.choice(c) * (1 + r.choice([0, 1, -1]) * math.exp(r.uniform(-30, -1)))
            elif m < 0.3:
                x = math.exp(r.uniform(math.log(lo0), math.log(hi)))
            elif m < 0.5:
                x = r.uniform(lo, hi)
            elif m < 0.75:
                c = [v for v in (r.choice(self.lits) for _ in range(12)) if lo <= v <= hi]
                if not c:
                    continue
                x = c[0] * (1 + r.choice([0, 0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-12, -1e-12, 0.02, -0.02]))
            elif m < 0.88:
                x = round(r.uniform(lo, min(hi, max(lo + 1, r.choice([8, 64, 1024]))))) / r.choice([1, 1, 2, 4])
            elif m < 0.95:
                x = 2.0 ** r.randint(int(math.floor(math.log2(lo0))), int(math.log2(hi)))
            else:
                x = r.choice([lo + (hi - lo) * math.exp(r.uniform(-30, 0)), hi - (hi - lo) * math.exp(r.uniform(-30, 0))])
            x = rnd(x, t)
            if lo <= x <= hi:
                return x
        return rnd(lo + (hi - lo) * 0.37, t)

    def wide(self, signed, lo=-4930, hi=4931):
        """A long double of any magnitude."""
        r = self.r
        e = r.choice([r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -340), min(hi, 340)), lo, hi])
        m = r.choice(['1.0', '1.0', '1.1', '%.19f' % r.uniform(1, 1.18), '%.19f' % r.uniform(1, 1.18)] + (['%.19f' % r.uniform(1, 9.9)] * 6 if e < 4931 else []))
        return Num((r.choice(['', '-']) if signed else '') + '%se%+dL' % (m, e))

    def sym(self, hi, t):
        return self.pos(0, hi, t) * self.r.choice([1, -1])


def domains():
    """function -> (arity, generator of argument tuples, fixed cases).  Arguments whose result is representable."""
    inf, nan = math.inf, math.nan
    big = {'f': 3e38, 'd': 1.7e308, 'l': 1.7e308}
    ex = {'f': 86.0, 'd': 700.0, 'l': 11000.0}
    D = {}

    def one(name, g, fixed=()):
        D[name] = (lambda G, t: (g(G, t),), [(x,) for x in fixed])

    def two(name, g, fixed=()):
        D[name] = (g, list(fixed))
    for f in ('floor', 'ceil', 'trunc', 'round'):
        one(f, lambda G, t: G.sym(big[t], t), (0.0, -0.0, inf, -inf, nan, 0.5, -0.5, 2.5))
    for f in ('abs', 'sgn', 'signbit'):
        one(f, lambda G, t: G.sym(big[t], t), (0.0, -0.0, inf, -inf, nan) if f != 'signbit' else (0.0, -0.0, inf, -inf))
    one('exp', lambda G, t: G.pos(0, ex[t], t) if G.r.random() < .4 else -G.pos(0, ex[t], t) if G.r.random() < .7 else -G.pos(ex[t], ex[t] * 1.2, t) if G.r.random() < .7 else -G.pos(0, big[t], t), (0.0, inf, -inf, nan, 1.0, -1.0))
    one('expm1', lambda G, t: G.sym(ex[t] * .95, t), (0.0, inf, -inf, nan))
    one('log', lambda G, t: G.pos(0, big[t], t), (0.0, inf, nan, 1.0, -1.0, -inf))
    one('log2', lambda G, t: G.pos(0, big[t], t), (0.0, inf, nan, 1.0, 8.0, -1.0))
    one('log10', lambda G, t: G.pos(0, big[t], t), (0.0, inf, nan, 1.0, 1000.0, -1.0))
    one('log1p', lambda G, t: G.pos(0, big[t], t) if G.r.random() < .6 else -G.pos(0, 0.999, t), (0.0, inf, nan, -1.0, -2.0))
    one('sqrt', lambda G, t: G.pos(0, big[t], t), (0.0, inf, nan, 1.0, -1.0))
    one('inv_sqrt', lambda G, t: G.pos(0, big[t], t), (inf, nan, 1.0, -1.0, 0.0))
    for f in ('sin', 'cos', 'tan'):
        one(f, lambda G, t: G.sym(20 if G.r.random() < .7 else 1e4 if G.r.random() < .4 else 1e15 if G.r.random() < .5 else big[t], t), (0.0, inf, -inf, nan, 3.141592653589793, -1.5707963267948966, 1.5707963267948966))
    for f in ('asin', 'acos'):
        one(f, lambda G, t: G.sym(1, t), (0.0, 1.0, -1.0, 0.5, -0.5, nan, 2.0, -2.0, inf))
    one('atan', lambda G, t: G.sym(big[t], t), (0.0, inf, -inf, nan))
    one('sinh', lambda G, t: G.sym(ex[t] * .95, t), (0.0, nan))
    one('cosh', lambda G, t: G.sym(ex[t] * .95, t), (0.0, nan))
    one('tanh', lambda G, t: G.sym(big[t], t), (0.0, inf, -inf, nan))
    one('asinh', lambda G, t: G.sym(big[t], t), (0.0, inf, -inf, nan))
    one('acosh', lambda G, t: G.pos(1, big[t], t), (1.0, inf, nan, 0.5, -1.0))
    one('atanh', lambda G, t: G.sym(0.9999, t), (0.0, 1.0, -1.0, 2.0, -2.0, nan, inf))
    one('lgamma', lambda G, t: G.pos(1e-20 if G.r.random() < .7 else 0, 1e15 if G.r.random() < .7 else big[t] / 1e4, t), (1.0, 2.0, 0.5, inf, nan, 0.0))
    top = {'f': 33, 'd': 168, 'l': 1750}
    bot = {'f': 28, 'd': 160, 'l': 1700}

    def gam(G, t, shift):
        m = G.r.random()
        if m < .5:
            return G.pos(0.01, min(168, top[t]), t)
        if m < .65:
            return rnd(G.r.uniform(0.01, top[t] - shift), t)
        return rnd(-(G.r.randint(0, 15 if G.r.random() < .5 else bot[t]) + G.r.uniform(.02, .98)) - shift, t)
    one('tgamma', lambda G, t: gam(G, t, 0), (1.0, 2.0, 5.0, 0.5, nan, -1.0, -5.0, inf))
    one('factorial', lambda G, t: G.pos(0, top[t] - 1, t) if G.r.random() < .6 else gam(G, t, 1), (0.0, 1.0, 5.0))
    one('erf', lambda G, t: G.sym(8 if G.r.random() < .8 else big[t], t), (0.0, inf, -inf, nan, 0.5, -0.5))
    one('erf_inv', lambda G, t: G.sym(0.999, t) if G.r.random() < .7 else (1 - 10 ** G.r.uniform(-6 if t == 'f' else -14, -3)) * G.r.choice([1, -1]), (0.0, 1.0, -1.0, 2.0, -2.0, nan, 0.5))

    def fm(G, t):
        y = G.pos(1e-3, 1e3, t) if G.r.random() < .7 else G.pos(1e-25, 1e25, t)
        return (rnd(y * math.exp(G.r.uniform(-3, 12)), t) * G.r.choice([1, -1]), y * G.r.choice([1, -1]))
    two('fmod', fm, [(5.5, 2.0), (-5.5, 2.0), (nan, 1.0), (inf, 1.0), (3.0, inf)])
    two('hypot', lambda G, t: (G.sym(big[t] / 2, t), G.sym(big[t] / 2, t)), [(3.0, 4.0), (0.0, 0.0), (inf, 1.0), (nan, 1.0)])

    def pw(G, t):
        b = G.pos(1e-3, 1e3, t) if G.r.random() < .7 else max(G.pos(0, big[t], t), 1e-37)
        return (b, rnd(G.r.uniform(-1, 1) * ex[t] * .8 / max(1.0, abs(math.log(b)), 1e-6), t)) if G.r.random() < .7 else (b, float(G.r.randint(-8, 8)))
    two('pow', pw, [(2.0, 0.0), (2.0, 0.5), (0.0, 2.0), (nan, 1.0), (-2.0, 0.5), (0.0, 0.0)])

    def pi(G, t):
        b = G.sym(1e3, t)
        b = b if abs(b) > 1e-3 else 1.5
        n = int(G.r.uniform(-1, 1) * ex[t] * .8 / max(1.0, abs(math.log(abs(b)))))
        return (b, n if G.r.random() < .6 else (G.r.randint(-6, 6) if abs(b) > 0.1 else G.r.randint(0, 4)))
    two('powi', pi, [(2.0, 0), (-2.0, 3), (0.5, -3), (nan, 2), (1.0, 2147483647), (-1.0, 2147483647), (1.0, -2147483648)])
    two('atan2', lambda G, t: (G.sym(big[t], t), G.sym(big[t], t)), [(0.0, 1.0), (0.0, -1.0), (1.0, 0.0), (-1.0, 0.0), (0.0, 0.0), (-0.0, -1.0), (inf, inf), (-inf, inf), (nan, 1.0), (1.0, inf), (1.0, -inf)])
    two('copysign', lambda G, t: (G.sym(big[t], t), G.sym(big[t], t)), [(1.0, -0.0), (-1.0, 0.0), (inf, -1.0)])
    two('max', lambda G, t: (G.sym(big[t], t), G.sym(big[t], t)), [(1.0, 1.0), (inf, 1.0)])
    two('min', lambda G, t: (G.sym(big[t], t), G.sym(big[t], t)), [(1.0, 1.0), (-inf, 1.0)])
    for f in ('beta', 'lbeta'):
        two(f, lambda G, t: (G.pos(0.05, 60 if t == 'f' else 400, t), G.pos(0.05, 60 if t == 'f' else 400, t)) if G.r.random() < .7 else (G.pos(1e-6, 5, t), G.pos(1, 1e6, t)), [(1.0, 1.0), (nan, 1.0)])
    two('log_binomial_coef', lambda G, t: (lambda n: (n, rnd(n * G.r.random(), t)))(G.pos(1, 1000 if G.r.random() < .6 else 1e9, t)), [(5.0, 2.0), (nan, 1.0)])
    two('lmgamma', lambda G, t: (lambda p: (rnd((p - 1) / 2 + G.pos(0.05, 50, t), t), p))(G.r.randint(1, 12) if G.r.random() < .6 else G.r.randint(13, 60)), [(1.5, 1), (nan, 2)])

    def ig(G, t):
        a = G.pos(0.05, 60 if t == 'f' else 300 if G.r.random() < .7 else 1e5, t)
        return (a, rnd(abs(a + G.r.uniform(-6, 8) * math.sqrt(a)) if G.r.random() < .6 else a * G.r.random() if G.r.random() < .6 else a * 10 ** G.r.uniform(-12, 3), t))
    two('incomplete_gamma', ig, [(1.0, 1.0), (0.0, 1.0), (2.0, 0.0), (nan, 1.0), (12.0, 9.0), (2.0, inf), (40.0, inf)])
    def prob(G, t):
        if t == 'f' or G.r.random() < .6:
            return rnd(G.r.uniform(0.02, 0.98), t)
        e = 10 ** G.r.uniform(-6, -1.7)
        return e if G.r.random() < .5 else 1 - e
    two('incomplete_gamma_inv', lambda G, t: (G.pos(0.2, 30 if t == 'f' else 150 if G.r.random() < .7 else 3000, t), prob(G, t)), [(2.0, 0.0), (2.0, 1.0), (nan, 0.5), (2.0, 1.5)])
    
    def ib(G, t):
        if G.r.random() < .6:
            return (G.pos(0.05, 100, t), G.pos(0.05, 100, t), G.pos(0.01 if G.r.random() < .6 else 1e-30, 1, t))
        hi = 1e4 if t == 'f' else 1e6       # slow convergence: large parameters, near the mean
        a = math.exp(G.r.uniform(math.log(50), math.log(hi)))
        b = a if G.r.random() < .3 else math.exp(G.r.uniform(math.log(50), math.log(hi)))
        m = a / (a + b)
        z = m + math.sqrt(m * (1 - m) / (a + b)) * G.r.choice([0, .1, .5, 1, 3]) * G.r.uniform(-1, 1)
        return (rnd(a, t), rnd(b, t), rnd(min(max(z, 1e-9), 1 - 1e-6), t))
    D['incomplete_beta'] = (ib, [(2.0, 3.0, 0.0), (2.0, 3.0, 1.0), (nan, 1.0, 0.5)])
    D['incomplete_beta_inv'] = (lambda G, t: (lambda h: (G.pos(0.3, h, t), G.pos(0.3, h, t), prob(G, t)))(40 if G.r.random() < .7 or t == 'f' else 2000), [(2.0, 3.0, 0.0), (2.0, 3.0, 1.0), (nan, 1.0, 0.5)])
    return D


# long doubles of any magnitude: function -> one generator per argument
S, P = (lambda G: G.wide(True)), (lambda G: G.wide(False))
WIDE = {f: (S,) for f in ('floor', 'ceil', 'trunc', 'round', 'abs', 'sgn', 'signbit', 'atan', 'tanh', 'asinh', 'erf')}
WIDE.update({f: (P,) for f in ('log', 'log2', 'log10', 'log1p', 'sqrt', 'inv_sqrt')})
WIDE.update({f: (S, S) for f in ('atan2', 'copysign', 'max', 'min')})
WIDE.update(hypot=(lambda G: G.wide(True, hi=4930), lambda G: G.wide(True, hi=4930)), acosh=(lambda G: G.wide(False, lo=0),), exp=(lambda G: Num('-' + G.wide(False)),), lgamma=(lambda G: G.wide(False, hi=4926),),
            pow=(P, lambda G: Num('%.6fL' % G.r.uniform(-.97, .97))), expm1=(lambda G: Num('-' + G.wide(False)),))


HEAVY = {'incomplete_gamma_inv': .15, 'incomplete_beta_inv': .3, 'incomplete_gamma': .4, 'incomplete_beta': .5, 'erf_inv': .6, 'lmgamma': .4, 'tgamma': .8}


def int_cases(r, n):
    """Calls with integral arguments whose exact result is representable in the type."""
    out = []

    def val(t, lo=None):
        a, b = INT[t]
        a = a + 1 if a else 0           # |min| is not representable
        while True:
            m = r.random()
            v = r.randint(-30, 30) if m < .3 else r.randint(-2000, 2000) if m < .5 else r.choice([1, -1]) * (r.getrandbits(64) >> r.randint(0, 63)) if m < .8 else r.choice([1, -1]) * 2 ** r.randint(0, 63) + r.randint(-2, 2) if m < .92 else r.choice([a, b]) + r.choice([-1, 0, 1])
            if a <= v <= b and (lo is None or v >= lo):
                return v
    for t in INT:
        lo, hi = INT[t]
        for _ in range(n):
            a, b = val(t), val(t)
            out += [('gcd', t, (a, b)), ('max', t, (a, b)), ('min', t, (a, b)), ('abs', t, (a,)), ('sgn', t, (a,))]
            if math.lcm(abs(a), abs(b)) <= hi:
                out.append(('lcm', t, (a, b)))
            k, m = r.randint(0, 34), r.randint(0, 67) if r.random() < .7 else val(t, 0)
            if r.random() < .2:
                k = max(0, m - r.randint(0, 4))
            if min(k, max(0, m - k)) < 200 and math.comb(m, min(k, abs(m - k)) if k <= m else k) <= hi and k <= hi:
                out.append(('binomial_coef', t, (m, k)))
            base, e = r.randint(-20, 20) if r.random() < .8 else val(t), r.randint(0, 64)
            if lo <= base <= hi and lo <= base ** e <= hi and abs(base) ** e <= hi:
                out.append(('pow', t, (base, e)))
            for f, ok in (('sqrt', a >= 0), ('log', a > 0), ('exp', abs(a) < 700), ('atan', True), ('floor', True), ('lgamma', a > 0), ('tanh', True), ('erf', True), ('asinh', True), ('log2', a > 0), ('cos', abs(a) < 10000), ('round', True), ('tgamma', 0 < a < 100), ('inv_sqrt', a > 0)):
                if ok and r.random() < .15:
                    out.append((f, t, (a,)))
        for k in range(0, 21):
            if math.factorial(k) <= hi:
                out.append(('factorial', t, (k,)))
        for a, b in ((0, 0), (0, 7), (7, 0), (hi, hi), (hi, 1), (1, hi), (hi, hi - 1), (12, 18)):
            out.append(('gcd', t, (a, b)))
            if math.lcm(a, b) <= hi:
                out.append(('lcm', t, (a, b)))
        out += [('pow', t, (1, hi)), ('pow', t, (0, hi)), ('pow', t, (0, 0)), ('pow', t, (2, 30)), ('binomial_coef', t, (hi, 1)), ('binomial_coef', t, (hi, 0)), ('binomial_coef', t, (hi, hi)), ('binomial_coef', t, (hi, hi - 1)), ('binomial_coef', t, (3, 5)),
                ('hypot', t, (3, 4)), ('atan2', t, (1, 2)), ('fmod', t, (17, 5)), ('beta', t, (2, 3)), ('lbeta', t, (2, 3)), ('log_binomial_coef', t, (10, 3)), ('incomplete_gamma', t, (3, 2)), ('incomplete_gamma_inv', t, (3, 0)), ('incomplete_beta', t, (2, 3, 1))]
        if lo:
            out += [('pow', t, (-1, hi)), ('pow', t, (-1, lo)), ('pow', t, (1, lo)), ('pow', t, (-2, 31 if t == 'i' else 63)), ('gcd', t, (-hi, hi)), ('lcm', t, (-hi, 1)), ('pow', t, (2, -1)), ('pow', t, (-3, -2))]
    return out


def cases(seed, lits, n, only=None):
    """List of (function, type, args); fixed cases first."""
    G = Gen(seed, lits)
    out, seen = [], set()
    for f, (gen, fixed) in domains().items():
        if only and f not in only:
            continue
        for t in 'fdl':
            k = max(4, int(n * HEAVY.get(f, 1)))
            todo = list(fixed) + [gen(G, t) for _ in range(k)]
            if t == 'l' and f in WIDE:
                todo += [tuple(g(G) for g in WIDE[f]) for _ in range(max(4, k // 2))]
            for a in todo:
                a = tuple(x if isinstance(x, (int, str)) else rnd(x, t) for x in a)
                key = (f, t) + tuple(lit(x, t) for x in a)
                if key not in seen:
                    seen.add(key)
                    out.append((f, t, a))
    for f, t, a in [] if only else int_cases(G.r, max(4, n // 3)):
        key = (f, t) + tuple(lit(x, t) for x in a)
        if key not in seen:
            seen.add(key)
            out.append((f, t, a))
    return out


# fixed cases whose result is NaN: Clang's evaluator rejects every operation that produces a NaN, so they are only put
# to GCC
NAN_OF = {'log': lambda a: a[0] < 0, 'log2': lambda a: a[0] < 0, 'log10': lambda a: a[0] < 0, 'log1p': lambda a: a[0] < -1, 'sqrt': lambda a: a[0] < 0, 'inv_sqrt': lambda a: a[0] < 0,
          'sin': lambda a: math.isinf(a[0]), 'cos': lambda a: math.isinf(a[0]), 'tan': lambda a: math.isinf(a[0]), 'asin': lambda a: abs(a[0]) > 1, 'acos': lambda a: abs(a[0]) > 1,
          'acosh': lambda a: a[0] < 1, 'atanh': lambda a: abs(a[0]) > 1, 'erf_inv': lambda a: abs(a[0]) > 1, 'tgamma': lambda a: a[0] <= 0 and a[0] == int(a[0]),
          'fmod': lambda a: math.isinf(a[0]) or math.isinf(a[1]), 'pow': lambda a: a[0] < 0, 'incomplete_gamma_inv': lambda a: a[1] > 1}


def gives_nan(f, a):
    a = tuple(approx(x) for x in a)
    return any(x != x for x in a) or (f in NAN_OF and NAN_OF[f](a))


def call(f, t, a):
    return 'gcem::%s(%s)' % ('pow' if f == 'powi' else f, ','.join(lit(x, t) for x in a))


def split(cs, k):
    r = [cs[i::k] for i in range(k)]
    return [x for x in r if x]


def write_tu(path, cs, run):
    with open(path, 'w') as o:
        o.write('#include "gcem.hpp"\n')
        if run:
            o.write('#include <cstdio>\n#include <cstring>\n')
        base = 3 if run else 1
        for i, (f, t, a) in enumerate(cs):
            o.write('constexpr long double c%d = static_cast<long double>(%s);\n' % (i, call(f, t, a)))
        if not run:
            return base
        o.write('struct A { const char* fn; long double a[3]; };\nstatic volatile A args[] = {\n')
        for f, t, a in cs:
            o.write('{"%s<%s>",{%s}},\n' % (f, T[t][0], ','.join('(long double)' + lit(x, t) if t in INT else lit(x, 'l') if isinstance(x, (int, str)) or x != x or math.isinf(x) else '(long double)' + lit(x, t) for x in a)))
        o.write('{0,{0}}};\nstatic const long double ct[] = {\n' + ''.join('c%d,\n' % i for i in range(len(cs))) + '0};\n')
        # one run-time call site per (function, type)
        o.write('static int nbad, nrun;\nstatic void cmp(int i, long double r) { ++nrun; const long double c = ct[i]; bool same = (r != r) ? (c != c) : (r == c && __builtin_signbit(r) == __builtin_signbit(c)); '
                'if (!same) { ++nbad; std::printf("DIFF %d %La %La\\n", i, c, r); } }\n')
        groups = {}
        for i, (f, t, a) in enumerate(cs):
            groups.setdefault((f, t, len(a)), []).append(i)
        o.write('int main()\n{\n')
        for (f, t, n), idx in groups.items():
            ct = T[t][0]
            ar = ','.join('(%s)args[i].a[%d]' % ('int' if f in ('powi', 'lmgamma') and k == 1 else ct, k) for k in range(n))
            o.write('  { static const int ix[] = {%s}; for (int i : ix) cmp(i, static_cast<long double>(gcem::%s(%s))); }\n' % (','.join(map(str, idx)), 'pow' if f == 'powi' else f, ar))
        o.write('  std::printf("RUN %d\\n", nrun); return 0;\n}\n')
        return base


def errors(out, name, base, n):
    """case index -> first message; and messages not tied to a case."""
    bad, other = {}, []
    lines = out.splitlines()
    rx = re.compile(re.escape(name) + r':(\d+):')
    msg = None
    for i, l in enumerate(lines):
        m = rx.search(l)
        if m:
            k = int(m.group(1)) - base - 1
            if 0 <= k < n:
                near = next((x for x in lines[i:i + 12] if 'error' in x), None) or next((x for x in lines[max(0, i - 6):i] if 'error' in x), l)
                if k not in bad:
                    bad[k] = near.split('error:')[-1].strip()[:200]
    if not bad:
        other = [l for l in lines if 'error' in l][:3]
    return bad, other


def lits_of(R, ctx):
    path = R.literals(ctx)
    lits = Lits(float(x) for x in open(path).read().split())
    lits.novel = [float(x) for x in open(path + '.novel').read().split()]
    return lits


class Lits(list):
    novel = ()


def run_c01(R):
    def run(ctx):
        n = 800 if ctx.thorough() else 90
        lits = lits_of(R, ctx)
        jobs = []
        for ci, (cc, std) in enumerate(CONFIGS):
            # every configuration gets its own arguments: more of the input space for the same cost
            cs = [c for c in cases(ctx.seed * 100 + ci, lits, n) if cc == 'g++' or not gives_nan(c[0], c[2])]
            for j, part in enumerate(split(cs, 2 if not ctx.thorough() else 16)):
                jobs.append((cc, std, part, 'ce_%d_%d.cpp' % (ci, j)))

        def go(job):
            cc, std, part, name = job
            path = ctx.p(name)
            base = write_tu(path, part, False)
            lim = ['-fmax-errors=0'] if cc == 'g++' else ['-ferror-limit=0', '-fconstexpr-backtrace-limit=0']
            rc, o = R.sh([cc, '-std=' + std, '-fsyntax-only', '-w'] + lim + [path] + R.INC, timeout=7200 if ctx.thorough() else 600)
            return job, base, rc, o
        for (cc, std, part, name), base, rc, o in ctx.pool.map(go, jobs):
            ctx.evals += len(part)
            ctx.count('constant evaluations by %s -std=%s' % (cc, std), len(part))
            if rc is None:
                ctx.notes.append('%s -std=%s cut off on %s' % (cc, std, name))
                continue
            if rc == 0:
                continue
            bad, other = errors(o, name, base, len(part))
            for k, msg in sorted(bad.items()):
                f, t, a = part[k]
                ctx.violation('%s is not a constant expression with %s -std=%s: %s' % (call(f, t, a), cc, std, msg), expression=call(f, t, a), compiler=cc, std=std)
            if not bad:
                ctx.violation('the library does not compile with %s -std=%s: %s' % (cc, std, ' | '.join(other)[:300] or o[-300:]), compiler=cc, std=std)
        alls = set()
        for cc, std, part, name in jobs:
            alls.update(call(*c) for c in part)
            if len(ctx.samples) < 12:
                ctx.samples.append('%s -std=%s: constexpr %s' % (cc, std, call(*part[len(part) // 3])))
        ctx.distinct = len(alls)
    return run


def run_c02(R):
    def run(ctx):
        n = 800 if ctx.thorough() else 90
        lits = lits_of(R, ctx)
        jobs = []
        for ci, (cc, std, opt) in enumerate(CONFIGS_RUN):
            cs = [c for c in cases(ctx.seed * 100 + 50 + ci, lits, n) if cc == 'g++' or not gives_nan(c[0], c[2])]
            for j, part in enumerate(split(cs, 2 if not ctx.thorough() else 16)):
                jobs.append((cc, std, opt, part, 'cv_%d_%d.cpp' % (ci, j)))

        def go(job):
            cc, std, opt, part, name = job
            path, exe = ctx.p(name), ctx.p(name + '.exe')
            lim = ['-fmax-errors=0'] if cc == 'g++' else ['-ferror-limit=0', '-fconstexpr-backtrace-limit=0']
            lost = 0
            for attempt in (0, 1, 2):
                base = write_tu(path, part, True)
                rc, o = R.sh([cc, '-std=' + std, opt, '-w'] + lim + [path, '-o', exe] + R.INC, timeout=7200 if ctx.thorough() else 600)
                if rc == 0 or rc is None:
                    break
                bad, _ = errors(o, name, base, len(part))      # not constant: C01's business, leave it out here
                if not bad:
                    break
                part = [c for i, c in enumerate(part) if i not in bad]
                lost += len(bad)
            if rc != 0:
                return job, part, lost, rc, o, ''
            rc2, o2 = R.sh([exe], timeout=300)
            return job, part, lost, 0, '', (o2 if rc2 == 0 else o2 + '\nCRASH %s' % rc2)
        alls = set()
        for (cc, std, opt, _, name), part, lost, rc, o, out in ctx.pool.map(go, jobs):
            if lost:
                ctx.notes.append('%d cases are not constant with %s -std=%s (see C01)' % (lost, cc, std))
            if rc != 0:
                ctx.notes.append('%s -std=%s %s: %s' % (cc, std, name, R.first_error(o)))
                ctx.count('translation units that did not compile')
                continue
            m = re.search(r'RUN (\d+)', out)
            if not m or 'CRASH' in out:
                ctx.violation('evaluating at run time ended abnormally with %s -std=%s %s: %s' % (cc, std, opt, out[-200:]), compiler=cc, std=std)
                continue
            ctx.evals += int(m.group(1))
            ctx.count('values compared with %s -std=%s %s' % (cc, std, opt), int(m.group(1)))
            alls.update(call(*c) for c in part)
            if len(ctx.samples) < 12:
                ctx.samples.append('%s -std=%s %s: %s' % (cc, std, opt, call(*part[len(part) // 3])))
            for m in re.finditer(r'DIFF (\d+) (\S+) (\S+)', out):
                c = part[int(m.group(1))]
                ctx.violation('%s = %s at compile time but %s at run time (%s -std=%s %s)' % (call(*c), m.group(2), m.group(3), cc, std, opt), expression=call(*c), compiler=cc, std=std)
        if ctx.evals == 0:
            ctx.violation('no configuration of the compile-time/run-time comparison compiles', compiler='all')
        ctx.distinct = len(alls)
    return run


def register(R):
    rule = ('per compiler and standard its own set of argument tuples per function and type: log-uniform, uniform, neighbourhoods of header literals, integers, fractions, powers of two, plus fixed special values; '
            'non-trivial: distinct expression')
    R.register('C01', run_c01(R), rule, 'constexpr')
    R.register('C02', run_c02(R), rule, 'constexpr')
