"""C09: labels. Each target is written in every spelling there is for it; what
is parsed, printed and compared has to agree with a reference."""
import random
from common import *

NAMES = ['foo', 'bar', 'foobar', 'a', 'x', 'foo.h', 'foo-bar', 'foo_bar', '_x',
         'foo.cc', '1', 'all_tests', 'lib++', 'a.b.c', 'foo=1', '@x', 'a@b',
         'a~b', 'foo,bar', '%x', 'FOO', 'foo#1', 'repo', 'r2', 'pkg.all']
SEGS = ['foo', 'bar', 'foobar', 'a', 'x', 'foo.d', 'a-b', '_x', '1', 'foo~1',
        'a@b', 'FOO', 'src', 'third_party', 'a.b', 'lib+']
REPOS = ['@repo', '@r2', '@foo', '@com_google_x', '@x', '@re-po', '@re.po_1']


def target(r):
    project = '' if r.random() < .5 else r.choice(REPOS)
    path = '/'.join(r.choice(SEGS) for _ in range(r.choice([0, 1, 1, 2, 3, 6])))
    last = path.split('/')[-1] if path else project[1:]
    name = r.choice(NAMES)
    if last and r.random() < .4:
        name = last
    elif r.random() < .2:
        name = r.choice(SEGS) + '/' + name
        if last and r.random() < .3:
            name = r.choice(SEGS) + '/' + last
    return project, path, name


def version(r):
    return r.choice(['', '', '~1.2', '~', '~~ext~x', '~1.0.bcr.1'])


def spellings(r, t, ctx):
    """All that denote t as seen from the package ctx."""
    project, path, name = t
    last = path.split('/')[-1] if path else None
    pkg = '//' + path
    out = []
    if project:
        out.append(project + version(r) + pkg + ':' + name)
        out.append(project + pkg + ':' + name)
        if last == name:
            out.append(project + version(r) + pkg)
        if not path and name == project[1:]:
            out.append(project)
    else:
        out.append('@' + pkg + ':' + name)
        if last == name:
            out.append('@' + pkg)
    if project == ctx[0]:
        out.append(pkg + ':' + name)
        if last == name:
            out.append(pkg)
        if path == ctx[1]:
            out.append(':' + name)
            if name[0] not in '@/':
                out.append(name)
    return out


def canonical(t):
    project, path, name = t
    if path and path.split('/')[-1] == name:
        return project + '//' + path
    if not path and project and project[1:] == name:
        return project
    return project + '//' + path + ':' + name


INVALID = ['//foo:bar:baz', 'a:b:c', '//foo//bar:x', '@x//foo//bar:baz',
           '//foo//bar', '::', ':a:b']


def case(r):
    pool = [target(r) for _ in range(r.choice([2, 5]))]
    ctx = r.choice(pool)[:2]
    other = r.choice([r.choice(pool)[:2], target(r)[:2]])
    for _ in range(2):
        pool.append(ctx + (r.choice(NAMES),))
    labels, want = [], []
    for t in pool:
        for s in spellings(r, t, ctx):
            labels.append(s)
            want.append(t)
    if r.random() < .3:
        k = r.randrange(len(labels))
        labels.insert(k, r.choice(INVALID))
        want.insert(k, None)
    return ctx, other, labels, want


def spell_ctx(c):
    return c[0] + '//' + c[1]


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = [case(r) for _ in range(n)]
    recs = [[spell_ctx(c[0]), spell_ctx(c[1])] + c[2] for c in cases]
    for (ctx, other, labels, want), a in zip(
            cases, core.probe_batch(binary, 'labels', recs)):
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), labels)
            continue
        if a['ctx'] != spell_ctx(ctx):
            o.bad('package', '%r parsed as %r' % (spell_ctx(ctx), a['ctx']),
                  ctx)
            continue
        valid = []
        for label, t, g in zip(labels, want, a['labels']):
            o.evaluations += 1
            o.sigs.add(sig((label, ctx)))
            where = '%r seen from %r' % (label, spell_ctx(ctx))
            if t is None:
                o.count('invalid')
                if g[0] is not None:
                    o.bad('invalid label accepted', '%s: %r' % (where, g[0]),
                          (label, ctx))
                continue
            valid.append(t)
            o.count('spelling_' + shape(label))
            canon = canonical(t)
            exp = list(t) + [canon, canon]
            if g[0] != exp:
                o.bad('parsed as another target or printed differently',
                      '%s: %r instead of %r' % (where, g[0], exp),
                      (label, ctx))
                continue
            tgt, reparse, elsewhere, rel, relparse, q1, q2, pkg, qf = g
            if t[0] or not ctx[0]:   # '//..' is relative to the project
                if reparse != exp:
                    o.bad('canonical form means something else',
                          '%s: %r' % (where, reparse), (label, ctx))
            if t[0] or not other[0]:
                if elsewhere != exp:
                    o.bad('canonical form means something else elsewhere',
                          '%s: %r' % (where, elsewhere), (label, ctx))
            if rel != (':' + t[2] if t[:2] == ctx else canon):
                o.bad('relative form', '%s: %r' % (where, rel), (label, ctx))
            if (t[0] or not ctx[0] or t[:2] == ctx) and relparse != exp:
                o.bad('relative form means something else', '%s: %r' % (
                    where, relparse), (label, ctx))
            if q1 != exp or q2 != exp:
                if not (t[2].startswith(':') and q1 is None):
                    o.bad('qualified name', '%s: %r %r' % (where, q1, q2),
                          (label, ctx))
            if pkg != [t[0], t[1], True]:
                o.bad('package of target', '%s: %r' % (where, pkg),
                      (label, ctx))
            if qf != (t[1] + '/' if t[1] else '') + t[2]:
                o.bad('file name of target', '%s: %r' % (where, qf),
                      (label, ctx))
        if len(a['cmp']) != len(valid):
            continue    # something reported above
        for x, row in zip(valid, a['cmp']):
            o.count('comparisons', len(valid))
            if '!' in row:
                o.bad('comparisons inconsistent', row, labels)
                break
            exp = ''.join('=' if x == y else '<' if x < y else '>'
                          for y in valid)
            if [c == '=' for c in row] != [c == '=' for c in exp]:
                o.bad('equality', '%r of %r: %r' % (x, valid, row), labels)
                break
        # A strict order: position of each in the order is consistent.
        ranks = [row.count('>') for row in a['cmp']]
        for i, row in enumerate(a['cmp']):
            if '!' in row: break
            if any((c == '<') != (ranks[i] < ranks[j]) or
                   (c == '=') != (ranks[i] == ranks[j])
                   for j, c in enumerate(row)):
                o.bad('not an order', repr(a['cmp']), labels)
                break
    o.sample(repr(cases[0][2][:3]))
    return o


def shape(label):
    s = '@' if label[0] == '@' else ''
    if s and label[1] == '/': s += 'main'
    if '~' in label.split('/')[0]: s += '~'
    if '//' in label: s += '//'
    return s + (':' if ':' in label else 'implicit')


def main():
    c = Check('C09', 'Random targets, written in each spelling that denotes '
              'them from a package, parsed, printed, parsed again, compared '
              'with each other. Distinct: by spelling and package.',
              min_evaluations=20000, min_distinct=10000)
    binary = built(build.probe, 'util')
    c.pool(batch, [(binary, s, c.n(120, 400)) for s in c.seeds(c.n(64, 2000))])
    c.finish()


main()
