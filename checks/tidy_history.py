"""Shared by C24 and C25: random histories of edits and runs."""
import random, shutil, time
from common import *
from vlib import tidy


def history(which, bins, seed, steps):
    o = Out()
    r = random.Random(seed)
    with Scratch('vt-') as base:
        proj = tidy.Project(base, bins, dirname=r.choice(['proj', 'c++ p']))
        proj.found = r.choice([None, None, None, 'home', 'tmp'])
        proj.linked = r.choice(['', str(seed)])
        proj.keep_reports = r.random() < .6
        g = tidy.Gen(r)
        g.populate(proj, r.choice([3, 8, 8, 15, 15, 60]))
        past, trace = {}, []
        precise, sloppy = {}, {}   # state -> (has findings, time of result)
        done = []
        for step in range(steps):
            for _ in range(r.choice([0, 1, 1, 1, 2, 4]) if step else 0):
                trace.append(g.edit(proj, past))
            done.append((step, len(trace)))
            lints = {p: proj.lint(p) for p in proj.sources()}
            blocks, counts = tidy.expected_report(lints)
            t0 = time.time()
            rep = proj.run()
            o.evaluations += 1
            o.sigs.add(sig((sorted(lints.items()), trace[-1:])))
            case = {'seed': seed, 'trace': trace, 'files': proj.files,
                    'version': proj.version, 'args': proj.args}
            log = proj.log()
            started = [f for w, _, f in log if w == 'start']
            o.count('runs')
            o.count('invocations', len(started))
            o.count('sources', len(lints))
            if which == 'C24':
                bad = tidy.compare_report(rep, blocks, counts)
                for key, msg in bad:
                    o.bad('cached ' + key, '%s\nafter %r' % (msg, trace[-6:]),
                          case)
                if bad:
                    return o
                if step % 3 == 2:
                    fresh = os.path.join(base, 'fresh')
                    rep2 = proj.run(cache=fresh)
                    proj.log()
                    shutil.rmtree(fresh, ignore_errors=True)
                    o.count('from_scratch_runs')
                    if rep.ok and rep2.ok:
                        a = sorted(rep.detail.split('\n'))
                        b = sorted(rep2.detail.split('\n'))
                        if a != b or rep.stdout != rep2.stdout or \
                           rep.r.rc != rep2.r.rc:
                            o.bad('differs from scratch', 'cached: %r %r\n'
                                  'from scratch: %r %r' % (
                                      rep.detail[:600], rep.stdout,
                                      rep2.detail[:600], rep2.stdout), case)
                            return o
            else:
                if not rep.ok:
                    o.bad('crash ' + rep.r.crash_key(),
                          rep.r.err[-1500:].decode('latin-1'), case)
                    return o
                for p in sorted(set(started) | set(lints)):
                    n = started.count(p)
                    if p not in lints:
                        o.bad('linted a file that is none of the sources',
                              p, case)
                        return o
                    pre, slo = proj.state(p)
                    stale = lambda e: e is not None and e[0] and \
                        e[1] < proj.db_time
                    if n > 1:
                        o.bad('linted twice', '%s %d times\nafter %r' % (
                            p, n, trace[-6:]), case)
                    elif n == 0 and (pre not in precise or
                                     stale(precise[pre])):
                        o.bad('out of date file not linted', '%s: %s\nafter '
                              '%r' % (p, 'new state' if pre not in precise
                                      else 'build newer', trace[-6:]), case)
                    elif n == 1 and slo in sloppy and not stale(sloppy[slo]):
                        o.bad('up to date file linted', '%s (findings: %s)\n'
                              'after %r' % (p, sloppy[slo][0], trace[-6:]),
                              case)
                    else:
                        if n:
                            o.count('invoked_once')
                            precise[pre] = sloppy[slo] = (
                                bool(lints[p]), time.time())
                        else:
                            o.count('answered_from_cache')
                            # The tool might just not know another header.
                            precise.setdefault(pre, sloppy.get(slo))
                        continue
                    return o
        if not o.samples:
            o.sample('seed %d: %s' % (seed, '; '.join(trace[:8])))
    return o


def main(which, rule):
    c = Check(which, rule, min_evaluations=100, min_distinct=60)
    bins = built(tidy.binaries, 'asan')
    c.pool(history, [(which, bins, s, c.n(14, 40))
                     for s in c.seeds(c.n(220, 2500))])
    c.finish()
