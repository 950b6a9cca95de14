#!/usr/bin/env python3
"""Driver of the checks:  run.py <property> [quick|thorough]   |   run.py setup   |   run.py replay <file>

Builds the system under test from /repo's working tree (once per build variant), runs the monitors over generated
workloads on all cores, and reports:  exit 0, or exit 1 and 'VIOLATION property=<id> replay=<path>'."""
import os, sys, re, json, time, glob, hashlib, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GCEM_REPO', '/repo')
HARN = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
NCPU = 8
sys.path.insert(0, HARN)


class Ctx:
    """One run of one check: scratch folder, seed, tier, and everything observed so far."""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=BUILD)
        self.pool = ThreadPoolExecutor(NCPU)
        self.viol = []            # dicts: what, replay
        self.evals = 0
        self.distinct = 0
        self.counts = {}
        self.worst = {}
        self.samples = []
        self.notes = []
        self.exhaustive = False
        self.t0 = time.time()

    def thorough(self):
        return self.tier == 'thorough'

    def p(self, name):
        return os.path.join(self.dir, name)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def violation(self, what, **replay):
        self.viol.append(dict(what=what, **replay))

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)


def sh(cmd, timeout=600, cwd=None, env=None, inp=None):
    """Run a command; (rc, stdout+stderr).  rc None: it did not finish in time."""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, input=inp)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('utf-8', 'replace')


INC = ['-I' + os.path.join(REPO, 'include'), '-I' + HARN]

# ---------------------------------------------------------------------------- the monitor binary (independent of /repo)


def build_monitor(name='mon', src='mon.cpp'):
    srcs = sorted(glob.glob(os.path.join(HARN, '*.[chi]*')))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in srcs)).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (name, h))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    rc, o = sh(['g++', '-std=gnu++17', '-O1', os.path.join(HARN, src), '-o', tmp, '-lquadmath', '-ldl'])
    if rc != 0:
        print(o[-3000:])
        print('monitor does not build')
        sys.exit(3)
    os.replace(tmp, out)
    return out


# ---------------------------------------------------------------------------- build variants of the system under test
# name: (compiler, flags, instrumentation)
UBF = ['-fsanitize=undefined,float-cast-overflow']
VARIANTS = {
    # plain builds; first letter: a = C++11 (recursive constexpr), b = C++14 and later
    'a_gcc11_O0':    ('g++', ['-std=c++11', '-O0'], ''),
    'a_gcc11_O3':    ('g++', ['-std=c++11', '-O3'], ''),
    'a_clang11_O1':  ('clang++', ['-std=c++11', '-O1'], ''),
    'b_gcc14_O1':    ('g++', ['-std=c++14', '-O1'], ''),
    'b_gcc17_O2':    ('g++', ['-std=c++17', '-O2'], ''),
    'b_gcc17_cmath': ('g++', ['-std=gnu++17', '-O0', '-DSUT_CMATH_FIRST'], ''),
    'b_gcc20_O0':    ('g++', ['-std=c++20', '-O0'], ''),
    'b_clang14_O0':  ('clang++', ['-std=c++14', '-O0'], ''),
    'b_clang17_cmath': ('clang++', ['-std=c++17', '-O1', '-DSUT_CMATH_FIRST'], ''),
    'b_clang20_O2':  ('clang++', ['-std=c++20', '-O2'], ''),
    # the GNU dialects, C++23, size optimisation, vector and FMA instruction sets (no contraction), NDEBUG
    'a_gccgnu11_Os': ('g++', ['-std=gnu++11', '-Os', '-DNDEBUG', '-ffp-contract=off'], ''),
    'a_clanggnu11_native': ('clang++', ['-std=gnu++11', '-O3', '-march=native', '-ffp-contract=off', '-DNDEBUG'], ''),
    'b_gccgnu20_native': ('g++', ['-std=gnu++20', '-O3', '-march=native', '-ffp-contract=off', '-DNDEBUG', '-fno-exceptions', '-fno-rtti'], ''),
    'b_gcc23_Og':    ('g++', ['-std=c++23', '-Og'], ''),
    'b_clang23_Os':  ('clang++', ['-std=gnu++2b', '-Os', '-march=native', '-ffp-contract=off', '-DNDEBUG'], ''),
    # undefined-behaviour instrumentation, reporting to our own runtime
    'ub_gcc11':      ('g++', ['-std=c++11', '-O1', '-g'] + [UBF[0] + ',bounds-strict'], 'ub'),
    'ub_gcc17':      ('g++', ['-std=c++17', '-O1', '-g'] + [UBF[0] + ',bounds-strict'], 'ub'),
    'ub_clang14':    ('clang++', ['-std=c++14', '-O1', '-g'] + UBF, 'ub'),
    # work and nesting
    'prof_gcc11':    ('g++', ['-std=c++11', '-O0', '-finstrument-functions', '-fsanitize-coverage=trace-pc'], 'prof'),
    'prof_gcc17':    ('g++', ['-std=c++17', '-O0', '-finstrument-functions', '-fsanitize-coverage=trace-pc'], 'prof'),
}


# what compilers emit calls to on their own, and data objects; every other function that is not in the object file is
# replaced by a stand-in that records the call
COMPILER = re.compile(r'^(mem(cpy|set|move|cmp)|__stack_chk_fail|_GLOBAL_OFFSET_TABLE_|__tls_get_addr|__dso_handle|__cxa_(atexit|guard_\w+|begin_catch|end_catch|call_terminate)|__gxx_personality_v0|_Unwind_Resume|_ZSt9terminatev|'
                      r'__clang_call_terminate|__(div|mod|udiv|umod|mul|ash[lr]|lshr|fix|fixuns|float|floatun|popcount|clz|ctz|ffs|parity|pow|extend|trunc|add|sub|neg|cmp)[sdxthi]\w*|_ZT[VISTC]\w*|std(in|out|err)|environ|_ZSt(4c(out|err|in|log)|5w(cout|cerr))|_ZStL8__ioinit)$')


def external_stubs(ctx, name, obj, rt):
    rc, und = sh(['nm', '-u', '--format=posix', obj])
    rc2, dfd = sh(['nm', '--defined-only', '--format=posix', rt])
    have = set(l.split()[0] for l in dfd.splitlines() if l.split())
    need = sorted(set(l.split()[0] for l in und.splitlines() if len(l.split()) > 1 and l.split()[1] == 'U') - have)
    need = [n for n in need if not COMPILER.match(n) and re.match(r'^[\w.$]+$', n)]
    if not need:
        return 0, '', []
    asm, o = ctx.p(name + '_ext.s'), ctx.p(name + '_ext.o')
    with open(asm, 'w') as f:
        for n in need:
            f.write('.text\n.globl {0}\n.type {0},@function\n{0}:\nsubq $8,%rsp\nleaq .L{0}_n(%rip),%rdi\ncall rt_external@PLT\nxorl %eax,%eax\npxor %xmm0,%xmm0\naddq $8,%rsp\nret\n.section .rodata\n.L{0}_n: .string "call of the external function {0}"\n'.format(n))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    rc, out = sh(['gcc', '-c', asm, '-o', o])
    return rc, out, [o]


def build_variant(ctx, name):
    """Compile the system under test for one variant; (name, path or None, compiler output)."""
    cc, flags, inst = VARIANTS[name]
    obj, so = ctx.p(name + '.o'), ctx.p(name + '.so')
    rc, o = sh([cc] + flags + ['-fPIC', '-c', os.path.join(HARN, 'sut.cpp'), '-o', obj] + INC, timeout=400)
    if rc != 0:
        return name, None, o
    link = [cc, '-shared', obj, '-o', so]
    if inst:
        rt = ctx.p(name + '_rt.o')
        rc, o = sh(['g++', '-O1', '-w', '-fno-builtin', '-fPIC', '-c', os.path.join(HARN, 'rt_%s.cpp' % dict(ub='ubsan').get(inst, inst)), '-o', rt])
        if rc != 0:
            return name, None, o
        if inst == 'libm':
            rc, o, stubs = external_stubs(ctx, name, obj, rt)
            if rc != 0:
                return name, None, o
            link += stubs
        link += [rt, '-Wl,-Bsymbolic'] + (['-nostdlib++'] if cc == 'clang++' else [])
    rc, o = sh(link, timeout=200)
    return name, (so if rc == 0 else None), o


def first_error(o):
    for l in o.splitlines():
        if 'error' in l:
            return l.strip()[:300]
    return o.strip()[-300:]


def build_variants(ctx, names, must=False):
    """All variants in parallel.  A header that does not compile in a variant is a violation where the property is
    about builds (must), and otherwise leaves that variant out; with none left, nothing can be observed to hold."""
    ctx.pool.submit(build_monitor)
    res = list(ctx.pool.map(lambda n: build_variant(ctx, n), names))
    ok = [(n, so) for n, so, _ in res if so]
    for n, so, o in res:
        if not so:
            ctx.notes.append('variant %s does not compile: %s' % (n, first_error(o)))
            if must or not ok:
                ctx.violation('the library does not compile in build %s (%s): %s' % (n, ' '.join([VARIANTS[n][0]] + VARIANTS[n][1]), first_error(o)), compile=n)
    ctx.counts['build variants'] = len(ok)
    return ok


def file_literals():
    """Numeric literals of each of the library's headers (the tables of quadrature nodes apart), with their number of occurrences."""
    res = {}
    for f in sorted(glob.glob(os.path.join(REPO, 'include', '**', '*.hpp'), recursive=True)):
        if 'quadrature' in f:
            continue
        s = open(f, errors='replace').read()
        s = re.sub(r'//.*', '', re.sub(r'/\*.*?\*/', '', s, flags=re.S))
        c = {}
        for m in re.finditer(r'(?<![\w.])((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[fFlLuU]*', s):
            try:
                if 0 < float(m.group(1)) < 1e308:
                    c[m.group(1)] = c.get(m.group(1), 0) + 1
            except ValueError:
                pass
        res[os.path.basename(f)] = c
    return res


def literals(ctx):
    """Numeric literals of the library's headers: thresholds and coefficients, around which the workload concentrates.
    Beside them, in <path>.novel, the literals whose number of occurrences in some header differs from the recorded
    one (harness/literals_base.json): where the source has changed, the workload looks harder.  None on the recorded tree."""
    now = file_literals()
    try:
        base = json.load(open(os.path.join(HARN, 'literals_base.json')))
    except (OSError, ValueError):
        base = now
    novel = set()
    for f in set(now) | set(base):
        a, b = now.get(f, {}), base.get(f, {})
        novel.update(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))
    if len(novel) > 150:                    # a file moved or rewritten: nothing to single out
        novel = set()
    key = lambda s: (float(s), s)
    path = ctx.p('literals.txt')
    open(path, 'w').write('\n'.join(sorted({k for c in now.values() for k in c}, key=key)[:1500]) + '\n')
    open(path + '.novel', 'w').write(''.join(k + '\n' for k in sorted(novel, key=key)))
    os.environ['GCEM_NOVEL'] = path + '.novel'
    if novel:
        ctx.counts['literals that differ from the recorded headers'] = len(novel)
    return path


# ---------------------------------------------------------------------------- running the monitor


def merge(ctx, d):
    ctx.evals += d.get('evaluations', 0)
    for k, v in d.get('counts', {}).items():
        ctx.count(k, v)
    for k, v in d.get('worst', {}).items():
        if k not in ctx.worst or v[0] > ctx.worst[k][0]:
            ctx.worst[k] = v
    ctx.samples += d.get('samples', [])


def run_monitor(ctx, mode, variants, budget, fns=None, rest=(), shards=NCPU, timeout=700, count_distinct=True):
    mon = build_monitor()
    lits = literals(ctx)

    def one(i):
        out = ctx.p('%s.%d.out' % (mode, i))
        cmd = [mon, '--mode', mode, '--budget', str(budget), '--seed', str(ctx.seed), '--shard', '%d/%d' % (i, shards), '--lits', lits, '--out', out, '--hashes', ctx.p('%s.%d.hash' % (mode, i))]
        if fns:
            cmd += ['--fns', ','.join(fns)]
        for n, so in variants:
            cmd += ['--var', n + '=' + so]
        rc, o = sh(cmd + list(rest), timeout=timeout)
        return i, rc, o, out
    for i, rc, o, out in ctx.pool.map(one, range(shards)):
        done = False
        for l in open(out, errors='replace') if os.path.exists(out) else []:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['kind'] == 'violation':
                ctx.violation(d['what'], mode=mode, fn=d['fn'], type=d['type'], args=d['args'].split(), variant=d['variant'])
            else:
                done = True
                merge(ctx, d)
        if rc is None:
            ctx.notes.append('shard %d of mode %s was cut off after %d s' % (i, mode, timeout))
        elif not done:
            ctx.violation('the monitored process ended abnormally (status %s) in mode %s, shard %d/%d: %s' % (rc, mode, i, shards, o[-300:]), mode=mode, shard=i)
    if count_distinct:
        hs = glob.glob(ctx.p(mode + '.*.hash'))
        cnt = ctx.p('count.out')
        sh([mon, '--mode', 'count', '--out', cnt] + hs)
        try:
            ctx.distinct += json.loads(open(cnt).read().splitlines()[-1])['distinct']
        except (OSError, ValueError, IndexError):
            pass
        for h in hs:
            os.unlink(h)


# ---------------------------------------------------------------------------- the checks
ACC4 = ['a_gcc11_O0', 'b_gcc17_O2', 'a_clang11_O1', 'b_clang20_O2']


def check_acc(fns, quick, thorough, f32=(), stride_q=1021, stride_t=7):
    def run(ctx):
        vs = build_variants(ctx, ACC4)
        if not vs:
            return
        run_monitor(ctx, 'acc', vs, thorough if ctx.thorough() else quick, fns, timeout=3600 if ctx.thorough() else 600)
        run_monitor(ctx, 'special', vs, 200000 if ctx.thorough() else 2000, fns, timeout=3600 if ctx.thorough() else 600)
        if f32:
            # a lattice over all 2^32 floats (every float when the stride is 1)
            sub = [v for v in vs if v[0] in ('b_gcc17_O2', 'a_clang11_O1')] or vs[:1]
            st = stride_t if ctx.thorough() else stride_q
            run_monitor(ctx, 'acc32', sub, st, list(f32), timeout=36000 if ctx.thorough() else 600, count_distinct=False)
    return run


def check_mode(mode, variants, quick, thorough, fns=None, must=False):
    def run(ctx):
        vs = build_variants(ctx, variants, must)
        if vs:
            run_monitor(ctx, mode, vs, thorough if ctx.thorough() else quick, fns, timeout=7200 if ctx.thorough() else 600)
    return run


def check_exact(fns, unary):
    def run(ctx):
        vs = build_variants(ctx, ACC4)
        if not vs:
            return
        run_monitor(ctx, 'exact', vs, 6000000 if ctx.thorough() else 1000000, fns, timeout=7200 if ctx.thorough() else 600)
        if ctx.thorough():
            sub = [v for v in vs if v[0] in ('b_gcc17_O2', 'b_clang20_O2')] or vs[:1]
            run_monitor(ctx, 'exact32', sub, 1, unary, timeout=36000, count_distinct=False)
            ctx.notes.append('all 2^32 float values enumerated for ' + ', '.join(unary))
    return run


GENERIC_RULE = ('arguments drawn from a mixture: log-uniform and uniform over the domain, neighbourhoods (ulps to 5%) of every numeric literal in the '
                'headers and of values derived from it, integers and simple fractions, powers of 2 and 10, special values, arbitrary bit patterns; ')
CHECKS = {}


def register(pid, run, rule, tool):
    CHECKS[pid] = dict(run=run, rule=rule, tool=tool)


register('C03', check_mode('cross', [v for v in VARIANTS if v[:2] in ('a_', 'b_')], 40000, 600000, must=True),
         GENERIC_RULE + 'a case is one argument tuple evaluated by every build; non-trivial: distinct (function, type, arguments), and every build returned', 'mon')
register('C04', check_mode('ub', ['ub_gcc11', 'ub_gcc17', 'ub_clang14'], 40000, 1000000),
         GENERIC_RULE + 'a case is one call under instrumentation; non-trivial: distinct (function, type, arguments)', 'mon')
register('C05', check_mode('prof', ['prof_gcc11', 'prof_gcc17'], 12000, 400000),
         GENERIC_RULE + 'a case is one call with its calls, nesting and basic blocks counted; non-trivial: distinct (function, type, arguments)', 'mon')
register('C06', check_mode('special', ACC4, 60000, 2000000),
         'table of exact special results, NaN placed in every argument position, sweeps of the outside of each domain, of the gamma poles and of the saturated tails; non-trivial: distinct (function, type, arguments)', 'mon')
register('C07', check_exact(['floor', 'ceil', 'trunc', 'round', 'fmod'], ['floor', 'ceil', 'trunc', 'round']),
         'half-integers, powers of two, integers and their neighbouring floats, literals, arbitrary bit patterns; non-trivial: distinct (function, type, arguments)', 'mon')
register('C08', check_exact(['abs', 'sgn', 'signbit', 'copysign', 'max', 'min'], ['abs', 'sgn', 'signbit']),
         'special values pairwise, equal and neighbouring arguments, arbitrary bit patterns; non-trivial: distinct (function, type, arguments)', 'mon')
RACC = GENERIC_RULE + 'a case is judged against a binary128 reference; non-trivial: distinct (function, type, arguments) inside the claimed region'
for pid, fns, q, t, f32 in [
        ('C09', ['exp', 'expm1'], 1500000, 6e7, ['exp', 'expm1']),
        ('C10', ['log', 'log1p', 'log2', 'log10'], 1000000, 4e7, ['log', 'log1p', 'log2', 'log10']),
        ('C11', ['pow', 'powi', 'sqrt', 'inv_sqrt', 'hypot'], 1000000, 4e7, ['sqrt', 'inv_sqrt']),
        ('C12', ['sin', 'cos', 'tan'], 1000000, 4e7, ['sin', 'cos', 'tan']),
        ('C13', ['asin', 'acos', 'atan', 'atan2'], 800000, 3e7, ['asin', 'acos', 'atan']),
        ('C14', ['sinh', 'cosh', 'tanh'], 1000000, 4e7, ['sinh', 'cosh', 'tanh']),
        ('C15', ['asinh', 'acosh', 'atanh'], 800000, 3e7, ['asinh', 'acosh', 'atanh']),
        ('C16', ['lgamma', 'tgamma', 'factorial', 'lmgamma'], 800000, 3e7, []),
        ('C17', ['beta', 'lbeta', 'log_binomial_coef'], 1500000, 3e7, []),
        ('C18', ['erf', 'erf_inv'], 800000, 3e7, ['erf']),
        ('C19', ['incomplete_gamma', 'incomplete_gamma_inv'], 800000, 1.5e7, []),
        ('C20', ['incomplete_beta', 'incomplete_beta_inv'], 2000000, 1.5e7, [])]:
    register(pid, check_acc(fns, q, t, f32), RACC, 'mon')
register('C23', check_mode('inv', ACC4, 160000, 5000000),
         GENERIC_RULE + 'a case is one argument (pair) on which symmetry, range, order and identities between results are checked; non-trivial: distinct (function, type, arguments)', 'mon')


def extras():
    """Checks with drivers of their own."""
    for m in ('chk_constexpr', 'chk_integer', 'chk_types', 'chk_config', 'chk_purity', 'chk_asan', 'chk_tables'):
        if os.path.exists(os.path.join(HARN, m + '.py')):
            __import__(m).register(sys.modules[__name__])


# ---------------------------------------------------------------------------- known findings, evidence, verdict


def known_findings(prop):
    """Open findings of this property: lines 'finding: property=<id> match=<regex> :: <description>'."""
    out = []
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def finish(ctx, info):
    os.makedirs(EVID, exist_ok=True)
    known = known_findings(ctx.prop)
    new, hit = [], {}
    for v in ctx.viol:
        for rx, desc in known:
            if rx.search(v['what']):
                hit[desc] = hit.get(desc, 0) + 1
                break
        else:
            new.append(v)
    for rx, desc in known:
        if desc in hit:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, desc))
    cov = dict(evaluations=int(ctx.evals), distinct_nontrivial=int(min(ctx.distinct, ctx.evals)), rule=info['rule'], samples=ctx.samples[:12] or ['(none)'], observed=ctx.counts)
    if ctx.worst:
        cov['largest_observed'] = {k: v for k, v in sorted(ctx.worst.items(), key=lambda kv: (kv[0].split('/')[0], -kv[1][0]))[:400]}
    if ctx.exhaustive:
        cov['exhaustive'] = True
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level='exploration', coverage=cov, assumptions=ctx.notes or ['none beyond MANIFEST.json'], wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    with open(os.path.join(EVID, ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n in ctx.notes:
        print('note:', n)
    print('%s %s seed=%d: %d evaluations, %d distinct cases, %d violation(s), %.1f s' % (ctx.prop, ctx.tier, ctx.seed, ctx.evals, ctx.distinct, len(new), time.time() - ctx.t0))
    rp = os.path.join(EVID, 'replay-%s.json' % ctx.prop)
    if os.path.exists(rp):
        os.unlink(rp)
    if not new:
        return 0
    with open(rp, 'w') as f:
        json.dump(dict(property=ctx.prop, seed=ctx.seed, tier=ctx.tier, violations=new[:400]), f, indent=1)
    for v in new[:5]:
        print('  ' + v['what'][:600])
    print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
    return 1


def replay(path):
    """Show the recorded violations again on the current tree."""
    d = json.load(open(path))
    ctx = Ctx(d['property'], 'quick')
    try:
        for v in d['violations'][:10]:
            print('recorded:', v['what'])
            if v.get('fn') and v.get('variant') in VARIANTS:
                so = ctx.p(v['variant'] + '.so')
                if not os.path.exists(so):
                    _, so, o = build_variant(ctx, v['variant'])
                if so:
                    print('   now:', sh([build_monitor(), '--mode', 'one', '--fns', v['fn'], '--var', v['variant'] + '=' + so, v['type']] + v['args'])[1].strip())
    finally:
        ctx.close()
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        os.makedirs(EVID, exist_ok=True)
        build_monitor()
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    extras()
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if a[0] not in CHECKS:
        print('no such property', a[0])
        return 2
    ctx = Ctx(a[0], tier)
    try:
        literals(ctx)
        CHECKS[a[0]]['run'](ctx)
        return finish(ctx, CHECKS[a[0]])
    finally:
        ctx.close()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
