"""C22: result types, noexcept, and integral and mixed-type calls against calls on the promoted type."""
import os, re

BUILDS = [('g++', ['-std=c++11', '-O0']), ('g++', ['-std=c++17', '-O0', '-DSUT_CMATH_FIRST']), ('clang++', ['-std=c++11', '-O0']), ('clang++', ['-std=c++20', '-O0'])]


def run(R):
    def go(ctx):
        def one(i):
            cc, fl = BUILDS[i]
            exe = ctx.p('types%d' % i)
            rc, out = R.sh([cc] + fl + ['-w', os.path.join(R.HARN, 'types_mon.cpp'), '-o', exe] + R.INC)
            if rc != 0:
                return i, None, out
            rc, out = R.sh([exe, str(ctx.seed * 10 + i), '3000' if ctx.thorough() else '80'], timeout=3600 if ctx.thorough() else 500)
            return i, rc, out
        for i, rc, out in ctx.pool.map(one, range(len(BUILDS))):
            name = ' '.join([BUILDS[i][0]] + BUILDS[i][1])
            if rc is None and 'error' in out:
                ctx.violation('a call that every arithmetic type must support does not compile with %s: %s' % (name, R.first_error(out)), build=name)
                continue
            for m in re.finditer(r'^VIOL (.*)$', out, re.M):
                ctx.violation('%s [%s]' % (m.group(1), name), call=m.group(1), build=name)
            if not ctx.samples:
                ctx.samples += re.findall(r'^SAMPLE (.*)$', out, re.M)
            m = re.search(r'DONE (\d+) (\d+)', out)
            if m:
                ctx.evals += int(m.group(1))
                ctx.count('types and values compared in ' + name, int(m.group(1)))
                ctx.distinct = max(ctx.distinct, int(m.group(2)))
            elif 'VIOL' not in out:
                ctx.violation('the type monitor ended abnormally (status %s) in %s: %s' % (rc, name, out[-200:]), build=name)
        ctx.samples = ctx.samples[:12]
    return go


def register(R):
    R.register('C22', run(R), 'every public function with each arithmetic argument type and (two and three arguments) a grid of mixed types; integers that all the types hold exactly; non-trivial: distinct (function, types, values), the largest count of any one build', 'types')
