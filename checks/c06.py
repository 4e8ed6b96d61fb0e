"""C06: what the tool prints for a parsed file parses again to the same
program, and prints the same again. Statements as printed by the tree printer,
and whole projects as printed by the command."""
import random, re
from common import *
from vlib import gen_build


def parse(binary, texts):
    return core.probe_batch(binary, 'parse', [[t] for t in texts])


def crashed(o, a, s):
    if 'crash' in a or 'hang' in a or 'error' in a:
        o.bad('crash ' + a.get('crash', a.get('error', 'hang')),
              a.get('err', ''), s)
        return True
    return False


def norm(e):
    """Differences that do not matter: the kind of quotes is not part of it.
    Grouping of operators is looked at separately."""
    return gen_build.flatten_ops(e)


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    texts, bares = [], []
    for _ in range(n):
        g = gen_build.Gen(r, depth=r.choice([1, 2, 3, 4]))
        prog = g.program(r.choice([1, 1, 2, 5]))
        bare = r.random() < .5
        texts.append(gen_build.Writer(r, bare=bare).text(prog))
        bares.append(bare)
    first = parse(binary, texts)
    redo = []
    for s, a, bare in zip(texts, first, bares):
        if crashed(o, a, s) or a['err']:
            o.count('not_parsed')
            continue
        redo.append((s, a, '\n'.join(a['stmts']) + '\n', bare))
    for (s, a, printed, bare), b in zip(redo, parse(binary, [x[2] for x in redo])):
        o.evaluations += 1
        if crashed(o, b, printed):
            continue
        if b['err']:
            o.bad('printed text does not parse', '%s: %r' % (
                b['msg'][:200], printed[:300]), s)
            continue
        # Without parentheses in the source, grouping is kept as well.
        f = (lambda e: e) if bare else norm
        t1 = tuple(f(gen_build.canon_dump(x)) for x in a['ast'][1:])
        t2 = tuple(f(gen_build.canon_dump(x)) for x in b['ast'][1:])
        o.sigs.add(sig(tuple(sorted(gen_build.kinds(t1)))))
        o.count('statements', len(t1))
        for k in gen_build.kinds(t1):
            o.count('node_' + k)
        if t1 != t2:
            o.bad('printed text means something else', '%s in %r' % (
                gen_build.first_diff(('f',) + t2, ('f',) + t1),
                printed[:300]), s)
        elif '\n'.join(b['stmts']) + '\n' != printed:
            o.bad('printing not stable', repr(printed[:300]), s)
    o.sample(repr(texts[0][:100]))
    return o


# Needs parentheses to be printed.
GROUPING = ['(a + b) * c', '(a - b) - c', '(not a) == b', '-(a)[0]',
            '(a if b else c) if d else e', '("a" + b).format(c)', '(a + b)[1]',
            '(-a) + b', '(a or b) and c', 'a * (b + c)', 'not (a and b)',
            '-(a + b)']


def grouping(binary):
    o = Out()
    first = parse(binary, ['x = ' + g for g in GROUPING])
    second = parse(binary, ['\n'.join(a['stmts']) for a in first])
    for g, a, b in zip(GROUPING, first, second):
        o.evaluations += 1
        if a['err'] or b['err'] or gen_build.canon_dump(a['ast']) != \
           gen_build.canon_dump(b['ast']):
            o.bad('grouping: ' + g, '%s is printed as %s' % (g, a['stmts']),
                  g)
    return o


def command_case(binary, bant, seed):
    """`bant print` of whole packages: each target once, readable again."""
    o = Out()
    r = random.Random(seed)
    g = gen_build.Gen(r, depth=3)
    files, want = {'WORKSPACE': ''}, {}
    for i in range(r.choice([1, 2, 4])):
        calls = []
        for j in range(r.choice([1, 3, 10])):
            c = g.call(3)
            calls.append(('call', 'cc_library',
                          ('assign', ('id', 'name'),
                           ('str', 'n%d' % j, False, False, '"n%d"' % j))) +
                         tuple(a for a in c[2:] if a[0] != 'assign' or
                               a[1][1] not in ('name', 'visibility')))
        pkg = 'p%d' % i
        files[pkg + '/BUILD'] = gen_build.Writer(r).text(calls)
        want['//' + pkg] = calls
    with Scratch() as d:
        write_tree(d, files)
        res = run2([bant, '-q', 'print', '//...'], cwd=d)
        rx = r.choice(['n[0-2]$', 'a', 'x+', 'x*', '', '"', 'n1', 'cc_', '^in',
                       'N1$', '[0-9]{2}', '$'])
        icase = r.random() < .3
        grep = run2([bant, '-q', 'print', '-g', rx] +
                    (['-i'] if icase else []) + ['//...'], cwd=d)
    o.evaluations += 1
    if res.crashed or res.timed_out or res.rc != 0 or res.err.strip():
        o.bad('print command failed', '%d %r' % (res.rc, res.err[-600:]),
              files)
        return o
    out = res.out.decode('latin-1')
    a = parse(binary, [out])[0]
    if crashed(o, a, out):
        return o
    if a['err']:
        o.bad('output of print does not parse', '%s %r' % (
            a['msg'][:200], out[:300]), files)
        return o
    got = tuple(norm(gen_build.canon_dump(x)) for x in a['ast'][1:])
    exp = tuple(norm(gen_build.canon(c)) for p in sorted(want)
                for c in want[p])
    o.count('printed_targets', len(exp))
    o.sigs.add(sig(out))
    if got != exp:
        o.bad('output of print means something else', '%s' %
              gen_build.first_diff(('f',) + got, ('f',) + exp), files)
    # Grep: just the targets in which some name or string matches.
    if grep.crashed or grep.timed_out or grep.rc != 0 or grep.err.strip():
        o.bad('print -g failed', '%r %d %r' % (rx, grep.rc,
                                               grep.err[-600:]), (rx, files))
        return o
    blocks = out.split('# ./')
    exp_out, i = blocks[0], 1
    for p in sorted(want):
        for c in want[p]:
            if any(re.search(rx.replace('$', r'\Z'), w, re.A | (re.I if icase else 0))
                   for w in words(c)):
                exp_out += '# ./' + blocks[i]
                o.count('grep_matches')
            i += 1
    if i != len(blocks):
        o.count('grep_skipped')   # separator occurs in a string
    elif grep.out.decode('latin-1') != exp_out:
        o.bad('print -g shows other targets', '%r: %r instead of %r' % (
            rx, grep.out[:300], exp_out[:300]), (rx, files))
    return o


def words(e):
    if not isinstance(e, tuple):
        return []
    if e and e[0] == 'str':
        return [e[1]]
    if e and e[0] == 'id':
        return [e[1]]
    out = []
    if e and e[0] == 'call':
        out.append(e[1])
    for x in e:
        out += words(x)
    return out


def main():
    c = Check('C06', 'Programs from a grammar with random layout, with and '
              'without parentheses: parsed, printed, parsed and printed '
              'again; and packages through the print command. Distinct: by '
              'set of constructs, and by output.',
              min_evaluations=2000, min_distinct=400)
    binary = built(build.probe, 'fe')
    bant = built(build.bant)
    c.pool(batch, [(binary, s, c.n(150, 400))
                   for s in c.seeds(c.n(64, 900))])
    c.pool(command_case, [(binary, bant, s)
                          for s in c.seeds(c.n(150, 2500), 'cmd')])
    c.pool(grouping, [(binary,)])
    c.finish()


main()
