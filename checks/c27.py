"""C27: killed, failing and concurrent lint runs. Oracle: the report of the
next undisturbed run against the model; ThreadSanitizer/ASan on every run."""
import os, random, signal, time
from common import *
from vlib import tidy


def model(proj):
    lints = {p: proj.lint(p) for p in proj.sources()}
    return lints, tidy.expected_report(lints)


def verify(o, proj, what, case, quiet=False):
    """The next undisturbed run. -> ok"""
    _, (blocks, counts) = model(proj)
    for i in range(2 if quiet else 1):
        rep = proj.run()
        o.evaluations += 1
        o.count('recovery_runs')
        bad = tidy.compare_report(rep, blocks, counts)
        for key, msg in bad:
            o.bad('after %s: %s' % (what, key), msg, case)
        if bad:
            return False
        log = proj.wait_quiet() if i == 0 else proj.log()
        if i == 1 and any(w == 'start' for w, _, _ in log):
            o.bad('after %s: linted again' % what, '%r' % log[:5], case)
            return False
    return True


def disturbed(o, rep, what, case):
    """A run in which something went wrong outside may not crash itself."""
    if rep.r.timed_out:
        o.bad('%s: hang' % what, 'run does not end', case)
        return False
    if rep.r.rc not in (0, 1):
        o.bad('%s: crash %s' % (what, rep.r.crash_key()),
              rep.r.err[-2500:].decode('latin-1'), case)
        return False
    return True


def mutate(r, g, proj):
    for _ in range(r.randrange(4)):
        g.edit(proj, {})


def crash_points(o, r, proj, g, seed):
    """The run is killed while the k-th file is being linted."""
    for rnd in range(3):
        case = {'seed': seed, 'kind': 'killrun', 'files': dict(proj.files)}
        srcs = proj.sources()
        victim = r.choice(srcs)
        pct = r.choice([0, 0, 30, 60, 100])
        ctl = ['killrun %d %s' % (pct, victim)]
        if r.random() < .5:
            ctl.append('slow %d *' % r.choice([2, 8, 20]))
        proj.ctl(ctl)
        rep = proj.run()
        o.evaluations += 1
        if rep.r.rc == -9:
            o.count('killed_by_tool')
            o.sigs.add(('killrun', pct, len(srcs), rnd, rep.r.err.count(b'\n')))
        elif not disturbed(o, rep, 'killrun', case):
            return
        orphans = r.random() < .5
        if not orphans:
            proj.wait_quiet()
            proj.ctl([])
        else:
            o.count('recovered_while_orphans_run')
            proj.ctl(['slow 3 *'] if r.random() < .5 else [])
        if not verify(o, proj, 'kill', case, quiet=not orphans):
            return
        proj.ctl([])
        proj.wait_quiet()
        # Orphans that finished in the mean time ruin nothing
        if orphans and not verify(o, proj, 'kill with orphans', case, True):
            return
        mutate(r, g, proj)


def timed_kill(o, r, proj, g, seed):
    for rnd in range(3):
        case = {'seed': seed, 'kind': 'timed', 'files': dict(proj.files)}
        proj.ctl(['slow %d *' % r.choice([1, 5, 15])])
        sig_ = r.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM,
                         signal.SIGINT])
        p = proj.start()
        delay = r.choice([.01, .05, .1, .2, .3]) * (.5 + r.random())
        time.sleep(delay)
        group = r.random() < .5
        try:
            (os.killpg if group else os.kill)(p.pid, sig_)
        except ProcessLookupError:
            pass
        rep = proj.finish(p)
        o.evaluations += 1
        o.count('killed_by_signal', rep.r.rc < 0)
        o.sigs.add(('timed', int(delay * 100), sig_, group, rep.r.rc,
                    rep.r.err.count(b'\n')))
        if rep.r.rc not in (-9, -15, -2, 0, 1):
            disturbed(o, rep, 'signal', case)
            return
        orphans = r.random() < .4
        if not orphans:
            proj.wait_quiet()
        proj.ctl([])
        if not verify(o, proj, 'signal', case, quiet=not orphans):
            return
        proj.wait_quiet()
        if orphans and not verify(o, proj, 'signal with orphans', case, True):
            return
        mutate(r, g, proj)


def failing_tool(o, r, proj, g, seed):
    if r.random() < .3:     # more than there are threads
        for i in range(3 * (os.cpu_count() or 8)):
            proj.put('bant/many%d.cc' % i, 'int many%d;\n' % i)
    for rnd in range(3):
        srcs = proj.sources()
        bad = r.sample(srcs, r.choice([r.randrange(1, len(srcs) + 1),
                                       max(1, len(srcs) - 3)]))
        how = {}
        for f in bad:
            how[f] = r.choice(['crash 0', 'crash 50', 'crash 100',
                               'exit 127', 'exit 126'])
        case = {'seed': seed, 'kind': 'failing', 'how': how,
                'files': dict(proj.files)}
        proj.ctl(['%s %s' % (h, f) for f, h in how.items()])
        rep = proj.run()
        log = proj.log()
        o.evaluations += 1
        failed = {f for w, _, f in log if w in ('crash', 'fail')}
        o.count('failed_invocations', len(failed))
        o.sigs.add(('fail', rnd, len(srcs), tuple(sorted(how.values()))))
        if not disturbed(o, rep, 'failing tool', case):
            return
        lints, _ = model(proj)
        for f in failed:
            lints.pop(f)
        # Whatever was linted properly is reported properly. (What was not:
        # may still have a former result.)
        blocks, counts = tidy.expected_report(lints)
        for f, b in blocks.items():
            if b not in (rep.detail or ''):
                o.bad('failing tool: others incomplete',
                      'findings of %s missing: %r' % (f, b), case)
                return
        proj.ctl([])
        if not verify(o, proj, 'failing tool', case, quiet=True):
            return
        mutate(r, g, proj)


def concurrent(o, r, proj, g, seed, base, bins):
    others = []
    for i in range(r.choice([1, 2, 3])):
        if r.random() < .5:
            others.append(proj)
            continue
        q = tidy.Project(base, bins, proj.variant, dirname='checkout%d' % i)
        q.args, q.version = proj.args, proj.version
        others.append(q)
    for rnd in range(3):
        for q in others:
            if q is proj:
                continue
            for f in [f for f in q.files if f not in proj.files]:
                q.rm(f)
            for f, c in proj.files.items():
                q.put(f, c)
            for f in ('MODULE.bazel', 'compile_commands.json'):
                st = os.stat(os.path.join(proj.dir, f))
                os.utime(os.path.join(q.dir, f), ns=(st.st_atime_ns,
                                                     st.st_mtime_ns))
            q.version, q.args = proj.version, proj.args
        if r.random() < .6:
            proj.ctl(['slow %d *' % r.choice([1, 3, 10])])
        case = {'seed': seed, 'kind': 'concurrent', 'files': dict(proj.files),
                'dirs': [q.dir for q in others]}
        allp = [proj] + others
        ps = []
        for q in allp:
            ps.append(q.start())
            if r.random() < .3:
                time.sleep(r.random() * .1)
        reps = [q.finish(p) for q, p in zip(allp, ps)]
        # Same directory: reports of the last to finish
        reps = [tidy.Report(rep.r, q.slurp('bant_clang-tidy.out'),
                            q.slurp('bant_clang-tidy.summary'))
                for q, rep in zip(allp, reps)]
        log = proj.log()
        starts = [f for w, _, f in log if w == 'start']
        o.count('concurrent_runs', len(allp))
        o.count('same_file_linted_by_several', len(starts) - len(set(starts)))
        o.evaluations += len(allp)
        o.sigs.add(('conc', rnd, len(allp), len({q.dir for q in allp}),
                    len(starts)))
        for q, rep in zip(allp, reps):
            _, (blocks, counts) = model(q)
            bad = tidy.compare_report(rep, blocks, counts)
            for key, msg in bad:
                o.bad('concurrent: ' + key, msg, case)
            if bad:
                return
        proj.ctl([])
        if not verify(o, proj, 'concurrent', case, quiet=True):
            return
        mutate(r, g, proj)


def scenario(bins, seed, kind, variant):
    o = Out()
    r = random.Random(seed)
    with Scratch('vt-') as base:
        proj = tidy.Project(base, bins, variant)
        g = tidy.Gen(r)
        while not proj.sources():
            g.populate(proj, r.choice([4, 12, 25, 40]))
        f = {'crash': crash_points, 'timed': timed_kill,
             'failing': failing_tool}.get(kind)
        o.count('scenarios_%s_%s' % (kind, variant))
        if f:
            f(o, r, proj, g, seed)
        else:
            concurrent(o, r, proj, g, seed, base, bins)
        proj.wait_quiet()
    return o


def main():
    c = Check('C27', 'Scenarios of three rounds: the run is killed from '
              'within the lint tool at a chosen file and output percentage, '
              'or by a signal at a random time (process or group, with or '
              'without the tools surviving), tools crash or can not be '
              'executed, several runs share a cache from the same or '
              'different directories; each followed by undisturbed runs that '
              'have to report what the model says and then lint nothing '
              'more. Half the scenarios run under ThreadSanitizer, half under '
              'ASan+UBSan. Distinct: by kind and observed interruption.',
              min_evaluations=100, min_distinct=30)
    bins = built(tidy.binaries, 'asan', 'tsan')
    jobs = []
    for i, s in enumerate(c.seeds(c.n(144, 1600))):
        jobs.append((bins, s, ['crash', 'timed', 'failing', 'concurrent'][i % 4],
                     ['asan', 'tsan'][i // 4 % 2]))
    c.pool(scenario, jobs)
    c.out.sample('killed by tool: %d, by signal: %d' % (
        c.out.counts.get('killed_by_tool', 0),
        c.out.counts.get('killed_by_signal', 0)))
    c.finish()


main()
