"""C24: configurations and inclusion environments; C26: the library calls nothing outside itself."""
import os, random, re

BUILDS = [('g++', 'c++11'), ('g++', 'c++17'), ('clang++', 'c++11'), ('clang++', 'c++20')]
ALL = ['exp', 'expm1', 'log', 'log1p', 'log2', 'log10', 'pow', 'powi', 'sqrt', 'inv_sqrt', 'hypot', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh',
       'lgamma', 'tgamma', 'factorial', 'lmgamma', 'beta', 'lbeta', 'log_binomial_coef', 'erf', 'erf_inv', 'incomplete_gamma', 'incomplete_gamma_inv', 'incomplete_beta', 'incomplete_beta_inv']


def run_c24(R):
    def go(ctx):
        # 1. inclusion environments, linked into one program
        def tu(job):
            cc, std, k = job
            o = ctx.p('conf_%s_%s_%s.o' % (cc, std, k))
            src = 'conf_main.cpp' if k == 'm' else 'conf_tu.cpp'
            rc, out = R.sh([cc, '-std=' + std, '-O0', '-w', '-c', os.path.join(R.HARN, src), '-o', o] + ([] if k == 'm' else ['-DCONF=%d' % k]) + R.INC)
            return job, (o if rc == 0 else None), out
        objs = {}
        for (cc, std, k), o, out in ctx.pool.map(tu, [(cc, std, k) for cc, std in BUILDS for k in list(range(8)) + ['m']]):
            objs.setdefault((cc, std), []).append(o)
            if not o:
                ctx.violation('inclusion environment %s (harness/conf_tu.cpp) does not compile with %s -std=%s: %s' % (k, cc, std, R.first_error(out)), compiler=cc, std=std)
        for (cc, std), os_ in objs.items():
            if None in os_:
                continue
            exe = ctx.p('conf_%s_%s' % (cc, std))
            rc, out = R.sh([cc] + os_ + ['-o', exe])
            if rc != 0:
                ctx.violation('translation units that each include the library do not link with %s -std=%s: %s' % (cc, std, out[-300:]), compiler=cc, std=std)
                continue
            rc, out = R.sh([exe], timeout=200)
            for m in re.finditer(r'^VIOL (.*)$', out, re.M):
                ctx.violation('%s [%s -std=%s]' % (m.group(1), cc, std), compiler=cc, std=std)
            m = re.search(r'DONE (\d+)', out)
            if m:
                ctx.evals += int(m.group(1))
                ctx.distinct += int(m.group(1))
                ctx.count('results compared across inclusion environments, %s -std=%s' % (cc, std), int(m.group(1)))
            elif 'VIOL' not in out:
                ctx.violation('the program of eight translation units ended abnormally (status %s) with %s -std=%s' % (rc, cc, std), compiler=cc, std=std)
        ctx.samples += ['inclusion environment 1 (function-like macros abs, min, max, round, signbit defined before the header): %s' % objs[('g++', 'c++11')][1]]
        # 2. raised iteration limits, and contraction of products: the accuracy monitor on differently configured builds
        lims = re.findall(r'#define\s+(GCEM_\w*MAX_ITER\w*)\s+(\d+)', open(os.path.join(R.REPO, 'include', 'gcem_incl', 'gcem_options.hpp')).read())
        rng = random.Random(ctx.seed * 31 + 5)
        raised = [['-D%s=%d' % (n, int(d) * rng.uniform(1, 6)) for n, d in lims if rng.random() < 0.7] for _ in range(2)]
        R.VARIANTS['cfg_rand11'] = ('clang++', ['-std=c++11', '-O1', '-fsanitize=undefined'] + raised[0], 'ub')
        R.VARIANTS['cfg_rand17'] = ('g++', ['-std=c++17', '-O1', '-fsanitize=undefined,bounds-strict'] + raised[1], 'ub')
        # all of them at once by a large factor (a little one for those of the inverses, whose work is the product of two)
        raised.append(['-D%s=%d' % (n, int(d) * (rng.uniform(1, 2) if '_INV_MAX' in n and 'SQRT' not in n else rng.uniform(8, 25))) for n, d in lims])
        R.VARIANTS['cfg_huge17'] = ('g++', ['-std=c++17', '-O2', '-fsanitize=undefined,bounds-strict'] + raised[2], 'ub')
        ctx.samples += ['raised limits: ' + ' '.join(r) for r in raised]
        names = ['cfg_more11', 'cfg_more17', 'cfg_rand11', 'cfg_rand17', 'cfg_huge17'] + (['cfg_fma'] if ' fma ' in open('/proc/cpuinfo').read() else [])
        vs = R.build_variants(ctx, names)
        if vs:
            R.run_monitor(ctx, 'acc', vs, 2000000 if ctx.thorough() else 80000, ALL, timeout=7200 if ctx.thorough() else 600)
    return go


def run_c26(R):
    def go(ctx):
        vs = R.build_variants(ctx, ['lib_gcc11', 'lib_gcc17', 'lib_clang17'])
        if vs:
            R.run_monitor(ctx, 'ub', vs, 400000 if ctx.thorough() else 24000, None, timeout=7200 if ctx.thorough() else 600)
    return go


MORE = ['-DGCEM_ERF_MAX_ITER=90', '-DGCEM_ERF_INV_MAX_ITER=90', '-DGCEM_EXP_MAX_ITER_SMALL=40', '-DGCEM_LOG_MAX_ITER_SMALL=40', '-DGCEM_LOG_MAX_ITER_BIG=300', '-DGCEM_INCML_BETA_MAX_ITER=300',
        '-DGCEM_INCML_BETA_INV_MAX_ITER=50', '-DGCEM_INCML_GAMMA_MAX_ITER=90', '-DGCEM_INCML_GAMMA_INV_MAX_ITER=50', '-DGCEM_SQRT_MAX_ITER=200', '-DGCEM_INV_SQRT_MAX_ITER=200', '-DGCEM_TAN_MAX_ITER=50', '-DGCEM_TANH_MAX_ITER=60']


def register(R):
    R.VARIANTS.update({
        'cfg_more11': ('g++', ['-std=c++11', '-O1'] + MORE, ''), 'cfg_more17': ('clang++', ['-std=c++17', '-O2'] + MORE, ''),
        'cfg_fma': ('g++', ['-std=c++17', '-O3', '-mfma', '-ffp-contract=fast'], ''),
        'lib_gcc11': ('g++', ['-std=c++11', '-O0', '-fno-builtin'], 'libm'), 'lib_gcc17': ('g++', ['-std=c++17', '-O0', '-DSUT_CMATH_FIRST'], 'libm'), 'lib_clang17': ('clang++', ['-std=c++17', '-O1', '-fno-builtin'], 'libm')})
    R.register('C24', run_c24(R), 'eight inclusion environments per compiler and standard, linked together, all results compared; then argument tuples as for the accuracy checks on builds with raised iteration limits and with contracted products; non-trivial: distinct comparisons and distinct argument tuples in the claimed region', 'config')
    R.register('C26', run_c26(R), R.GENERIC_RULE + 'a case is one call with stand-ins recording every use of the C library; non-trivial: distinct (function, type, arguments)', 'mon')
