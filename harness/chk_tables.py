"""C27: constants and quadrature tables."""
import os, re

BUILDS = [('g++', ['-std=gnu++11', '-O0']), ('g++', ['-std=gnu++17', '-O2', '-DSUT_CMATH_FIRST']), ('g++', ['-std=gnu++20', '-O1']), ('clang++', ['-std=gnu++14', '-O1'])]


def run(R):
    def go(ctx):
        def one(i):
            cc, fl = BUILDS[i]
            exe = ctx.p('const%d' % i)
            have = []
            # a table that the library no longer offers under this name cannot be observed
            for sets in (['-DHAVE_50', '-DHAVE_30'], ['-DHAVE_50'], ['-DHAVE_30'], []):
                rc, out = R.sh([cc] + fl + ['-w', os.path.join(R.HARN, 'const_mon.cpp'), '-o', exe, '-lquadmath'] + sets + R.INC)
                if rc == 0:
                    have = sets
                    break
            if rc != 0:
                return i, None, out, have
            rc, out = R.sh([exe, str(ctx.seed * 10 + i), '100000' if ctx.thorough() else '3000'], timeout=3600 if ctx.thorough() else 500)
            return i, rc, out, have
        for i, rc, out, have in ctx.pool.map(one, range(len(BUILDS))):
            name = ' '.join([BUILDS[i][0]] + BUILDS[i][1])
            if rc is None:
                ctx.notes.append('%s: not observed (%s)' % (name, R.first_error(out)))
                continue
            if len(have) < 2:
                ctx.notes.append('%s: observed only %s' % (name, ' '.join(have) or 'the constants'))
            for m in re.finditer(r'^VIOL (.*)$', out, re.M):
                ctx.violation('%s [%s]' % (m.group(1), name), build=name)
            m = re.search(r'WORST (\S+) (.*)', out)
            if m:
                ctx.samples.append('%s: largest error %s LDBL_EPSILON, at %s' % (name, m.group(1), m.group(2)))
            m = re.search(r'DONE (\d+) (\d+)', out)
            if m:
                ctx.evals += int(m.group(1))
                ctx.count('constants, nodes, weights and integrals judged in ' + name, int(m.group(1)))
                ctx.distinct = max(ctx.distinct, int(m.group(2)))
            elif 'VIOL' not in out:
                ctx.violation('the table monitor ended abnormally (status %s) in %s: %s' % (rc, name, out[-200:]), build=name)
        if not ctx.evals and not ctx.viol:
            ctx.violation('nothing could be observed: the library compiles in no build')
    return go


def register(R):
    R.register('C27', run(R), 'every constant, every node and weight of both rules, and integrals of random polynomials of every degree the rules must integrate exactly; non-trivial: distinct items, the largest count of any one build', 'tables')
