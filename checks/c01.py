"""C01: no BUILD file content crashes or hangs anything that reads it; what
can't be parsed is reported, and the rest of the project is still there."""
import os, random, re, resource
from common import *
from vlib import chaos, scale

COMMANDS = ['parse', 'print', 'list-packages', 'list-targets', 'workspace',
            'lib-headers', 'genrule-outputs', 'aliased-by', 'depends-on',
            'has-dependents', 'dwyu', 'canonicalize', 'compile-flags',
            'compilation-db']


def judge(o, a, what, case):
    if 'crash' in a:
        o.bad('crash ' + a['crash'], '%s: %s' % (what, a['err']), case)
    elif 'hang' in a:
        o.bad('hang', what, case)
    elif 'error' in a:
        o.bad('error ' + a['error'], what, case)
    else:
        return True
    return False


def pipeline(binary, seed, n):
    """Everything that walks a syntax tree, in-process."""
    o = Out()
    r = random.Random(seed)
    recs, kinds = [], []
    for _ in range(n):
        rec, ks = [r.choice(['', 'e', 'e'])], []
        for j in range(r.choice([1, 1, 2, 3])):
            k, s = chaos.content(r)
            rec += ['//p%d' % j if j else '//', s]
            ks.append(k)
        recs.append(rec)
        kinds.append(tuple(sorted(ks)))
    with Scratch() as d:
        for rec, ks, a in zip(recs, kinds, core.probe_batch(
                binary, 'project', recs, cwd=d)):
            o.evaluations += 1
            if not judge(o, a, 'project', rec):
                continue
            for k in ks:
                o.count('content_' + k)
            o.count('targets', len(a['targets']))
            o.sigs.add(sig((ks, tuple(sorted({t[1] for t in a['targets']})),
                            'expected' in a['info'], a['edits'] > 0)))
    singles = [[s] for rec in recs for s in rec[2::2]]
    for rec, a in zip(singles, core.probe_batch(binary, 'parse', singles)):
        o.evaluations += 1
        if not judge(o, a, 'parse', rec):
            continue
        o.count('parse_errors', a['err'])
        if a['err'] != (a['msg'] != ''):
            o.bad('error without report', repr(a['msg']), rec)
    o.sample(repr(recs[0])[:100])
    return o


def deep(binary, kind, n):
    o = Out()
    s = scale.DEEP[kind](n)
    recs = [['', '//', s], ['e', '//', s], ['e', '//', s + '\nx = ', '//b', s]]
    for rec, a in zip(recs, core.probe_batch(binary, 'project', recs)):
        o.evaluations += 1
        if judge(o, a, 'deep %s %d' % (kind, n), rec):
            o.count('deep_refused' if 'deep' in a['info'] else 'deep_accepted')
            o.sigs.add(sig(('deep', kind, 'deep' in a['info'])))
    return o


def seconds(binary, mode, rec, limit):
    best = None
    for _ in range(2):
        t0 = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
        a = core.probe_batch(binary, mode, [rec], timeout=limit)[0]
        if 'hang' in a or 'crash' in a:
            return None, a
        t = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime - t0
        best = t if best is None else min(best, t)
    return best, a


def wide(binary, kind, mode):
    """Eight times the size does not take much more than eight times."""
    o = Out()
    f = scale.WIDE[kind]
    rec = (lambda s: ['e', '//', s]) if mode == 'project' else (lambda s: [s])
    n = 8000
    for attempt in range(2):
        t1, a = seconds(binary, mode, rec(f(n)), 60)
        if t1 is None:
            judge(o, a, kind, (kind, n))
            return o
        t2, a = seconds(binary, mode, rec(f(n * 8)), 60)
        if t2 is None:
            judge(o, a, kind, (kind, n * 8))
            return o
        if t2 < .8 or t2 < 30 * max(t1, .02):
            break
    else:
        o.bad('not linear ' + kind, '%s: %d takes %.2fs, %d takes %.2fs' % (
            mode, n, t1, 8 * n, t2), (kind, mode, n))
    o.evaluations += 2
    o.sigs.add(sig(('wide', kind, mode)))
    o.count('max_wide_ms', int(t2 * 1000))
    return o


GOOD = {
    'good/BUILD': '''
cc_library(name = "lib", srcs = ["lib.cc"], hdrs = ["lib.h"])
cc_binary(name = "main", srcs = ["main.cc"], deps = [":lib", "//bad:x"])
alias(name = "ali", actual = ":lib")
genrule(name = "gen", outs = ["gen.h"])
''',
    'good/lib.cc': '#include "good/lib.h"\n',
    'good/lib.h': '', 'good/main.cc': '#include "good/lib.h"\n',
    'zgood/sub/BUILD': 'cc_library(name = "z", srcs = glob(["*.cc"]),'
                       ' deps = ["//good:lib"])\n',
    'zgood/sub/z.cc': '#include "good/gen.h"\n#include "bad/b.h"\n',
    'MODULE.bazel': 'module(name = "m")\nbazel_dep(name = "x", version="1")\n',
}


def command_case(bant, seed):
    o = Out()
    r = random.Random(seed)
    kind, s = chaos.content(r)
    if r.random() < .15:
        s = scale.DEEP[r.choice(list(scale.DEEP))](r.choice([100, 2500, 9000]))
        kind = 'deep'
    with Scratch() as d:
        write_tree(d, GOOD)
        write_tree(d, {'bad/' + f: '' for f in ['a.cc', 'a.h', 'b.h']})
        extra = [[], ['-r'], ['-e'], ['-v']]

        def ask(cmd, opts):
            pat = [] if cmd == 'workspace' else [
                r.choice(['//...', '//...', '//...', '//bad:all', '//bad/...',
                          '//good:main'])]
            return core.run2([bant] + opts + [cmd] + pat, cwd=d, timeout=30)

        def targets():
            return run2([bant, 'list-targets', '//...'], cwd=d, timeout=30)

        def others(res):
            return [ln for ln in res.out.decode('latin-1').splitlines()
                    if '//good' in ln or '//zgood' in ln]

        before = [ln.split() for ln in others(targets())]
        where = r.choice(['bad/BUILD', 'bad/BUILD', 'bad/BUILD.bazel',
                          'MODULE.bazel', 'BUILD'])
        write_tree(d, {where: s})
        res = targets()
        after = [ln.split() for ln in others(res)]
        if not res.crashed and before != after:
            o.bad('other packages affected', '%r became %r' % (before, after),
                  (where, s))
        for cmd in COMMANDS:
            opts = r.choice(extra)
            res = ask(cmd, opts)
            o.evaluations += 1
            if res.timed_out:
                o.bad('hang ' + cmd, repr(opts), (where, s))
            elif res.crashed:
                o.bad('crash %s' % res.crash_key(), '%s %s %r: %s' % (
                    cmd, opts, where, res.err[-1500:].decode('latin-1')),
                    (where, s))
            elif res.rc not in (0, 1, 2, 3):
                o.bad('odd exit code', '%s %d' % (cmd, res.rc), (where, s))
            else:
                o.count('commands')
                o.sigs.add(sig((cmd, kind, where, res.rc, len(res.err) > 0)))
    return o


BROKEN = ['x = [', 'cc_library(name = "a"', 'x = = 1', 'a b', '1 = x',
          'x = "abc', 'cc_library(name = "a" deps = [])', ')',
          'x = a not b', 'x = {1 2}', 'x = a[', 'x = $', 'x = (1 2)']


def reported(bant, text, pre):
    """What can't be parsed is said, with the place."""
    o = Out()
    with Scratch() as d:
        write_tree(d, GOOD)
        write_tree(d, {'bad/BUILD': pre + text + '\n'})
        first = pre.count('\n') + 1
        for cmd in ['parse', 'list-targets', 'print', 'depends-on']:
            res = run2([bant, cmd, '//...'], cwd=d)
            o.evaluations += 1
            err = res.err.decode('latin-1')
            m = [ln for ln in err.splitlines()
                 if re.match(r'(\./)?bad/BUILD:(%d|%d):' % (first, first + 1),
                             ln)]
            if res.crashed or res.timed_out:
                o.bad('crash ' + res.crash_key(), err[-800:], text)
            elif not m:
                o.bad('parse error not reported', '%s %r: %r' % (
                    cmd, text, err[:300]), (pre, text))
            if cmd == 'list-targets' and b'//good:lib' not in res.out:
                o.bad('other packages affected', '', (pre, text))
        o.sigs.add(sig(('broken', text)))
    return o


def main():
    c = Check('C01', 'Hostile BUILD contents through parser, elaboration, '
              'printing, queries, edits in-process, through all commands, '
              'nested deeply and growing; ASan+UBSan; distinct by kind of '
              'content, rules and kind of outcome.',
              min_evaluations=3000, min_distinct=300)
    fe = built(build.probe, 'fe')
    plain = built(build.probe, 'fe', 'plain')
    bant = built(build.bant)
    # Timing first, without everything else going on at the same time.
    kinds = sorted(scale.WIDE)
    c.pool(wide, [(plain, k, m) for m in ['project', 'parse'] for k in kinds],
           workers=max(1, (os.cpu_count() or 4) // 2))
    c.pool(deep, [(fe, k, n) for k in sorted(scale.DEEP)
                  for n in c.n([1900, 20000], [500, 1900, 2100, 50000, 200000])])
    c.pool(pipeline, [(fe, s, c.n(60, 150)) for s in c.seeds(c.n(96, 2500))])
    c.pool(command_case, [(bant, s) for s in c.seeds(c.n(120, 3000), 'cmd')])
    c.pool(reported, [(bant, t, p) for t in BROKEN
                      for p in ['', 'cc_library(name = "p")\n\n# x\n']])
    c.finish()


main()
