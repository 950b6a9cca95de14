"""C21: integer algorithms, exact, for all integral types and pairs of types, under undefined-behaviour instrumentation."""
import os, re

BUILDS = [('g++', ['-std=c++11', '-O0', '-fsanitize=undefined,bounds-strict']), ('g++', ['-std=c++17', '-O0', '-fsanitize=undefined,bounds-strict', '-DSUT_CMATH_FIRST']),
          ('clang++', ['-std=c++14', '-O0', '-fsanitize=undefined']), ('clang++', ['-std=c++20', '-O0', '-fsanitize=undefined'])]


def run(R):
    def go(ctx):
        rt = ctx.p('rt.o')
        R.sh(['g++', '-O1', '-c', os.path.join(R.HARN, 'rt_ubsan.cpp'), '-o', rt])

        def build(i):
            cc, fl = BUILDS[i]
            o = ctx.p('int%d.o' % i)
            rc, out = R.sh([cc] + fl + (['-O2'] if ctx.thorough() else []) + ['-g', '-w', '-fno-sanitize=vptr', '-c', os.path.join(R.HARN, 'int_mon.cpp'), '-o', o] + R.INC)
            if rc != 0:
                return i, None, out
            rc, out = R.sh([cc, o, rt, '-o', ctx.p('int%d' % i)])
            return i, (ctx.p('int%d' % i) if rc == 0 else None), out
        built = list(ctx.pool.map(build, range(len(BUILDS))))
        ok = [(i, e) for i, e, _ in built if e]
        for i, e, out in built:
            if not e:
                ctx.notes.append('%s does not compile: %s' % (' '.join([BUILDS[i][0]] + BUILDS[i][1]), R.first_error(out)))
        if not ok:
            ctx.violation('the integer monitor compiles in no build: ' + R.first_error(built[0][2]), compiler='all')
            return
        n = 60000 if ctx.thorough() else 16000
        jobs = [(i, e, s) for i, e in ok for s in range(2 if not ctx.thorough() else 8)]
        for (i, e, s), (rc, out) in zip(jobs, ctx.pool.map(lambda j: R.sh([j[1], str(ctx.seed), str(j[2] * 16 + j[0]) if j[2] else '0', str(n)], timeout=7200 if ctx.thorough() else 300), jobs)):
            name = ' '.join([BUILDS[i][0]] + BUILDS[i][1])
            for m in re.finditer(r'^VIOL (.*)$', out, re.M):
                ctx.violation('%s [%s]' % (m.group(1), name), call=m.group(1), build=name)
                c = m.group(1)
            if len(ctx.samples) < 12:
                ctx.samples += re.findall(r'^SAMPLE (.*)$', out, re.M)[:4]
            m = re.search(r'DONE (\d+) (\d+)', out)
            if m:
                ctx.evals += int(m.group(1))
                ctx.count('calls compared in ' + name, int(m.group(1)))
                if s != 0 or i == ok[0][0]:           # shards with arguments of their own
                    ctx.distinct += int(m.group(2))
            elif rc is None:
                ctx.notes.append('cut off: ' + name)
            elif 'VIOL' not in out:
                ctx.violation('the integer monitor ended abnormally (status %s) in %s' % (rc, name), build=name)
        ctx.samples = ctx.samples[:12]
    return go


UB = [('g++', ['-std=c++17', '-O0', '-fsanitize=undefined,bounds-strict']), ('clang++', ['-std=c++11', '-O0', '-fsanitize=undefined'])]


def ub(R, ctx):
    """C04 on the integer algorithms: the undefined operations, signals and hangs in int_mon's workload (values are C21's)."""
    rt = ctx.p('rtub_int.o')
    R.sh(['g++', '-O1', '-c', os.path.join(R.HARN, 'rt_ubsan.cpp'), '-o', rt])

    def build(i):
        cc, fl = UB[i]
        o = ctx.p('intub%d.o' % i)
        rc, out = R.sh([cc] + fl + ['-g', '-w', '-fno-sanitize=vptr', '-DINT_UB_ONLY', '-c', os.path.join(R.HARN, 'int_mon.cpp'), '-o', o] + R.INC)
        if rc == 0:
            rc, out = R.sh([cc, o, rt, '-o', ctx.p('intub%d' % i)])
        return i, rc == 0, out
    ok = []
    for i, good, out in ctx.pool.map(build, range(len(UB))):
        if good:
            ok.append(i)
        else:
            ctx.notes.append('the integer workload does not compile with %s: %s' % (' '.join([UB[i][0]] + UB[i][1]), R.first_error(out)))
    n = 40000 if ctx.thorough() else 4000
    jobs = [(i, s) for i in ok for s in range(8 if ctx.thorough() else 4)]
    for (i, s), (rc, out) in zip(jobs, ctx.pool.map(lambda j: R.sh([ctx.p('intub%d' % j[0]), str(ctx.seed), str(j[1]), str(n)], timeout=3600 if ctx.thorough() else 300), jobs)):
        name = ' '.join([UB[i][0]] + UB[i][1])
        for m in re.finditer(r'^VIOL (.*)$', out, re.M):
            ctx.violation('%s [%s]' % (m.group(1), name), call=m.group(1), build=name)
        m = re.search(r'DONE (\d+) (\d+)', out)
        if m:
            ctx.evals += int(m.group(1))
            ctx.count('calls of the integer algorithms, ' + name, int(m.group(1)))
            ctx.distinct += int(m.group(2)) if i == ok[0] else 0
        elif rc is None:
            ctx.notes.append('cut off: ' + name)
        elif 'VIOL' not in out:
            ctx.violation('the integer workload ended abnormally (status %s) in %s' % (rc, name), build=name)


PROF = [('g++', ['-std=c++11', '-O0']), ('g++', ['-std=c++17', '-O0', '-DSUT_CMATH_FIRST'])]


def prof(R, ctx):
    """C05 on the integer algorithms: calls, nesting and basic blocks of each call of int_mon's workload."""
    rt = ctx.p('rtprof.o')
    R.sh(['g++', '-O1', '-w', '-fno-builtin', '-c', os.path.join(R.HARN, 'rt_prof.cpp'), '-o', rt])

    def build(i):
        cc, fl = PROF[i]
        o = ctx.p('intprof%d.o' % i)
        rc, out = R.sh([cc] + fl + ['-w', '-finstrument-functions', '-fsanitize-coverage=trace-pc', '-DINT_PROF', '-c', os.path.join(R.HARN, 'int_mon.cpp'), '-o', o] + R.INC)
        if rc == 0:
            rc, out = R.sh([cc, o, rt, '-o', ctx.p('intprof%d' % i)])
        return i, rc == 0, out
    ok = []
    for i, good, out in ctx.pool.map(build, range(len(PROF))):
        if good:
            ok.append(i)
        else:
            ctx.notes.append('the integer workload does not compile with %s: %s' % (' '.join(PROF[i][1]), R.first_error(out)))
    n = 40000 if ctx.thorough() else 4000
    jobs = [(i, s) for i in ok for s in range(8 if ctx.thorough() else 4)]
    for (i, s), (rc, out) in zip(jobs, ctx.pool.map(lambda j: R.sh([ctx.p('intprof%d' % j[0]), str(ctx.seed), str(j[1]), str(n)], timeout=3600 if ctx.thorough() else 300), jobs)):
        name = 'intprof ' + ' '.join(PROF[i][1])
        for m in re.finditer(r'^VIOL (.*)$', out, re.M):
            ctx.violation('%s [%s]' % (m.group(1), name), call=m.group(1), build=name)
        for d, b, f in re.findall(r'^WORST (\d+) (\d+) (.*)$', out, re.M):
            for what, v in (('nesting', int(d)), ('blocks', int(b))):
                k = '%s/integer %s/%s' % (what, f, name)
                if k not in ctx.worst or v > ctx.worst[k][0]:
                    ctx.worst[k] = [v, 'integral arguments']
        m = re.search(r'^WORK (\d+) (\d+)$', out, re.M)
        if m:
            ctx.count('calls observed', int(m.group(1)))
            ctx.count('basic blocks observed', int(m.group(2)))
        m = re.search(r'DONE (\d+) (\d+)', out)
        if m:
            ctx.evals += int(m.group(1))
            ctx.count('calls with integral arguments', int(m.group(1)))
            ctx.distinct += int(m.group(2)) if i == ok[0] else 0
        elif rc is None:
            ctx.notes.append('cut off: ' + name)
        elif 'VIOL' not in out:
            ctx.violation('the integer workload ended abnormally (status %s) in %s' % (rc, name), build=name)


def register(R):
    inner = R.CHECKS['C05']['run']

    def c05(ctx):
        inner(ctx)
        prof(R, ctx)
    R.CHECKS['C05']['run'] = c05
    inner4 = R.CHECKS['C04']['run']

    def c04(ctx):
        inner4(ctx)
        ub(R, ctx)
    R.CHECKS['C04']['run'] = c04
    R.register('C21', run(R), 'arguments small, of any magnitude, near powers of two, near the limits of the type and smooth numbers, for each of 10 integral types and 100 ordered pairs; kept when the exact result is representable in the common type; '
               'non-trivial: distinct (function, types, arguments) within a shard', 'integer')
