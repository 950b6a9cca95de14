"""C25: purity and thread safety under ThreadSanitizer; and the MSan/ASan runs that complete C04."""
import os, re

TSAN = [('g++', ['-std=c++11', '-O1', '-fsanitize=thread']), ('clang++', ['-std=c++17', '-O1', '-fsanitize=thread']), ('g++', ['-std=c++20', '-O2']), ('clang++', ['-std=c++11', '-O0'])]
MEM = [('clang++', ['-std=c++17', '-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins']), ('clang++', ['-std=c++11', '-O0', '-fsanitize=memory']),
       ('g++', ['-std=c++17', '-O1', '-fsanitize=address']), ('clang++', ['-std=c++11', '-O1', '-fsanitize=address'])]
ENV = dict(os.environ, TSAN_OPTIONS='halt_on_error=0:report_signal_unsafe=0:exitcode=66', ASAN_OPTIONS='detect_leaks=0:exitcode=66', MSAN_OPTIONS='exitcode=66')


def drive(R, ctx, builds, per, threads, rounds):
    lits = R.literals(ctx)

    def one(i):
        cc, fl = builds[i]
        exe = ctx.p('pure_%d_%d' % (threads, i))
        rc, out = R.sh([cc] + fl + ['-g', '-w', os.path.join(R.HARN, 'pure_mon.cpp'), os.path.join(R.HARN, 'sut.cpp'), '-o', exe, '-lpthread', '-lm'] + R.INC)
        if rc != 0:
            return i, 'build', out
        rc, out = R.sh([exe, str(ctx.seed * 8 + i), str(per), str(threads), str(rounds), lits], env=ENV, timeout=7200 if ctx.thorough() else 500)
        if rc not in (0, None) and ('unexpected memory mapping' in out or 'FATAL: ThreadSanitizer' in out or 'Shadow memory range' in out):
            rc, out = R.sh(['setarch', '-R', exe, str(ctx.seed * 8 + i), str(per), str(threads), str(rounds), lits], env=ENV, timeout=500)
            if rc not in (0, None) and 'DONE' not in out:
                return i, 'env', out
        return i, rc, out
    good = 0
    # the threaded programs one after another, so that their threads really share the cores
    runs = [one(i) for i in range(len(builds))] if threads > 1 and ctx.thorough() else list(ctx.pool.map(one, range(len(builds))))
    for i, rc, out in runs:
        name = ' '.join([builds[i][0]] + builds[i][1])
        if rc == 'build' or rc == 'env':
            ctx.notes.append('%s: %s' % (name, R.first_error(out)))
            continue
        good += 1
        for m in re.finditer(r'^VIOL (.*)$', out, re.M):
            ctx.violation('%s [%s]' % (m.group(1), name), call=m.group(1), build=name)
        for m in re.finditer(r'(WARNING|ERROR): (ThreadSanitizer|MemorySanitizer|AddressSanitizer)[^\n]*(?:\n.*){0,6}', out):
            ctx.violation('%s [%s]' % (re.sub(r'\s+', ' ', m.group(0))[:400], name), build=name)
        m = re.search(r'DONE (\d+) (\d+) (\d+)', out)
        if m:
            ctx.evals += int(m.group(1)) + int(m.group(3))
            ctx.distinct += int(m.group(2))
            ctx.count('sequential calls in ' + name, int(m.group(1)))
            if threads:
                ctx.count('concurrent calls in ' + name, int(m.group(3)))
            if len(ctx.samples) < 12:
                ctx.samples += re.findall(r'^SAMPLE (.*)$', out, re.M)[:2]
        elif rc is None:
            ctx.notes.append('cut off: ' + name)
        elif not re.search(r'^VIOL|Sanitizer', out, re.M):
            ctx.violation('the program ended abnormally (status %s) in %s: %s' % (rc, name, out[-200:]), build=name)
    if not good and not all(r[1] == 'env' for r in runs):
        ctx.violation('the library compiles in no build: ' + R.first_error(runs[0][2]), build='all')


def register(R):
    def c25(ctx):
        drive(R, ctx, TSAN, 6000 if ctx.thorough() else 1000, 8, 20 if ctx.thorough() else 6)
    R.register('C25', c25, 'one list of cases over all functions and types per build, evaluated forwards, backwards, repeated, and by 8 threads in random and in lock-step order; non-trivial: distinct cases in the list', 'purity')
    old = R.CHECKS['C04']['run']

    def c04(ctx):
        old(ctx)
        drive(R, ctx, MEM, 12000 if ctx.thorough() else 1500, 0, 0)
    R.CHECKS['C04']['run'] = c04
