"""C07: parsing. The generator writes a program it knows the tree of; the tree
the parser builds must be that one. Text that violates the grammar in a known
place must be refused, with a message pointing into the text."""
import random, re
from common import *
from vlib import gen_build
from vlib.lexgen import Lines


# One edit each that leaves no valid program, on a valid one-statement text.
def spoil(r, s):
    """-> (text, offset from which on the error has to be) or None."""
    k = r.randrange(8)
    if k == 0: return s + ')\n', len(s)
    if k == 1: return s + 'x y\n', len(s) + 2
    if k == 2: return s + 'f(a b)\n', len(s) + 4
    if k == 3: return s + 'x = [1, 2\n', len(s) + 10
    if k == 4: return s + 'x = {1: 2, 3}\n', len(s) + 12
    if k == 5: return s + 'x = "abc\n', len(s) + 4
    if k == 6: return s + 'x = %s\n' % r.choice(
        ['0x', '0o8', '0o', '0o18', '99999999999999999999999']), len(s) + 4
    return s + 'x = [i for i on y]\n', len(s) + 13


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = []
    for _ in range(n):
        g = gen_build.Gen(r, depth=r.choice([1, 2, 3, 4]))
        prog = g.program(r.choice([1, 1, 2, 5]))
        bare = r.random() < .25
        s = gen_build.Writer(r, bare=bare,
                             minimal=r.random() < .6).text(prog)
        bad = spoil(r, s) if r.random() < .15 else None
        cases.append((prog, bad[0] if bad else s, bad and bad[1], bare))
    for (prog, s, bad, bare), a in zip(cases, core.probe_batch(
            binary, 'parse', [[c[1]] for c in cases])):
        o.evaluations += 1
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), s)
            continue
        if 'error' in a:
            o.bad(a['error'], '%r' % s[:300], s)
            continue
        try:
            got = [gen_build.canon_dump(x, s) for x in a['ast'][1:]]
        except gen_build.Bad as e:
            o.bad('tree', '%s in %r' % (e, s[:300]), s)
            continue
        want = [gen_build.canon(x) for x in prog]
        if bare:    # all, but for how operators are grouped
            o.count('ungrouped')
            want = [gen_build.flatten_ops(x) for x in want]
            got = [gen_build.flatten_ops(x) for x in got]
        if bad is not None:
            o.count('invalid')
            if not a['err'] or not a['msg']:
                o.bad('accepts invalid text', repr(s[bad - 12:]), s)
                continue
            m = re.match(r'dir/BUILD:(\d+):(\d+)', a['msg'])
            l, c = Lines(s).pos(bad)
            if not m or (int(m[1]), int(m[2])) != (l + 1, c + 1):
                o.bad('error reported elsewhere', '%r, expected %d:%d for %r'
                      % (a['msg'][:100], l + 1, c + 1, s[bad - 12:]), s)
            if got[:len(want)] != want:
                o.bad('statements before the error lost',
                      gen_build.first_diff(tuple(got), tuple(want)), s)
            continue
        if a['err']:
            o.bad('refuses valid text', '%s for %r' % (a['msg'][:200],
                                                      s[:400]), s)
            continue
        o.sigs.add(sig(tuple(sorted(gen_build.kinds(tuple(want))))))
        for k in gen_build.kinds(tuple(want)):
            o.count('node_' + k)
        o.count('statements', len(want))
        if got != want:
            o.bad('other tree', gen_build.first_diff(
                ('file',) + tuple(got), ('file',) + tuple(want)) +
                ' in %r' % s[:400], s)
    o.sample(repr(cases[0][1][:100]))
    return o


# Grouping that a reader assigns to operators without parentheses.
GROUPING = [
    ('a - b - c', '(a - b) - c'), ('a * b + c', '(a * b) + c'),
    ('-a + b', '(-a) + b'), ('not a and b', '(not a) and b'),
    ('x.f() + y', '(x.f()) + y'), ('a + b if c else d', '(a + b) if c else d'),
    ('"%s" % a + b', '("%s" % a) + b'), ('a == b and c', '(a == b) and c'),
    ('x.f()[0]', '(x.f())[0]'), ('a + b - c + d', '((a + b) - c) + d'),
    ('a - b + c', '(a - b) + c'), ('a not in b or c', '(a not in b) or c'),
    ('-x.y[0]', '-((x.y)[0])'), ('not a == b', 'not (a == b)'),
    ('a | b + c * -d', 'a | (b + (c * (-d)))'), ('a or b and c', 'a or (b and c)'),
    ('a + b * c', 'a + (b * c)'), ('a if b else c if d else e',
                                   'a if b else (c if d else e)'),
]


def grouping(binary):
    o = Out()
    ans = core.probe_batch(binary, 'parse', [
        ['x = ' + t] for g in GROUPING for t in g])
    for i, g in enumerate(GROUPING):
        o.evaluations += 1
        a, b = ans[2 * i:2 * i + 2]
        if 'ast' not in a or 'ast' not in b or a['err'] or b['err'] or \
           gen_build.canon_dump(a['ast']) != gen_build.canon_dump(b['ast']):
            o.bad('grouping: ' + g[0], '%s is not parsed as %s' % g, g)
    return o


def main():
    c = Check('C07', 'Programs from a grammar with random layout (comments, '
              'continuations, parentheses, trailing commas, all literal '
              'forms), a sixth of them with a grammar violation at a known '
              'place. Distinct: by set of constructs.',
              min_evaluations=2000, min_distinct=400,
              assumptions=['Operator chains are written such that no '
                           'precedence is needed, but for + and . chains.'])
    binary = built(build.probe, 'fe')
    c.pool(batch, [(binary, s, c.n(150, 400))
                   for s in c.seeds(c.n(64, 1200))])
    c.pool(grouping, [(binary,)])
    c.finish()


main()
