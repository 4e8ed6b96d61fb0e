"""C05: rendering of locations. Oracle: an independent formatter, and the
recovery of the range from the rendered text."""
import random, re
from common import *

MAXI = 2**31 - 2


def expect(r):
    sl, sc, el, ec = r
    s = '%d:%d' % (sl + 1, sc + 1)
    if sl == el:
        return s + ('-%d:' % ec if ec > sc + 1 else ':')
    return s + ':%d:%d:' % (el + 1, ec)


def recover(t):
    """Range denoted by the text (empty and one-character ranges look the
    same: the latter)."""
    m = re.fullmatch(r'(\d+):(\d+)(?:-(\d+)|:(\d+):(\d+))?:', t)
    if not m:
        return None
    a, b, c, d, e = [int(x) if x else None for x in m.groups()]
    if c is not None:
        return (a - 1, b - 1, a - 1, c)
    if d is not None:
        return (a - 1, b - 1, d - 1, e)
    return (a - 1, b - 1, a - 1, b)


def gen(rng, n):
    def num():
        k = rng.randrange(6)
        if k == 0: return rng.randrange(3)
        if k == 1: return rng.choice([8, 9, 10, 98, 99, 100, 999, 1000, 65534,
                                      65535, 65536, 255, 256, 127, 128])
        if k == 2: return rng.randrange(MAXI)
        if k == 3: return MAXI
        return rng.randrange(200)
    for _ in range(n):
        sl, sc = num(), num()
        k = rng.randrange(8)
        if k == 0: el, ec = sl, sc
        elif k == 1: el, ec = sl, min(MAXI, sc + 1)
        elif k == 2: el, ec = sl, min(MAXI, sc + 2)
        elif k == 3: el, ec = sl, min(MAXI, sc + 1 + num())
        elif k == 4: el, ec = min(MAXI, sl + 1), 1 + num()
        elif k == 5: el, ec = min(MAXI, sl + 1 + num()), max(1, sc)
        elif k == 6: el, ec = min(MAXI, sl + 1), min(MAXI, max(1, sc + rng.choice([-1, 0, 1, 2])))
        else: el, ec = min(MAXI, sl + rng.randrange(4)), 1 + num()
        ec = min(ec, MAXI)
        if (el, ec) < (sl, sc):
            sl, sc, el, ec = el, ec, sl, sc
        if el > sl and ec == 0:
            ec = 1
        yield (sl, sc, el, ec)


NAMES = ['', 'BUILD', 'a/b/BUILD.bazel', '//x:y', 'sp ace', 'c:1:2:', 'q"\'',
         'ümlaut'.encode().decode('latin-1'), 'x' * 300, '-', 'a-5:']


def batch(binary, groups):
    o = Out()
    recs = [[name] + [str(x) for r in rs for x in r] for name, rs in groups]
    for (name, rs), a in zip(groups, core.probe_batch(binary, '', recs)):
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''),
                  [name, rs])
            continue
        shared = ''
        for r, (floc, rng_, start, stream, string, end, eq) in zip(rs, a['r']):
            o.evaluations += 1
            want = expect(r)
            kind = ('empty' if r[:2] == r[2:] else 'char'
                    if r[0] == r[2] and r[3] == r[1] + 1 else
                    'line' if r[0] == r[2] else 'lines')
            o.count('ranges_' + kind)
            o.sigs.add((kind, len(str(r[0])), len(str(r[1])),
                        len(str(r[2])), len(str(r[3])), r[3] - r[1]
                        if abs(r[3] - r[1]) < 4 else 9))
            endp = '%d:%d' % (r[2] + 1, r[3] + 1)
            shared += name + ':' + want + want + ',' + endp + ';'
            case = {'file': name, 'range': r, 'expected': want}
            if rng_ != want:
                o.bad('range/' + kind, '%r rendered %r, expected %r' % (
                    r, rng_, want), case)
                continue
            back = recover(rng_)
            if back != r and not (kind == 'empty' and back[:2] == r[:2]):
                o.bad('recover/' + kind, '%r -> %r -> %r' % (r, rng_, back),
                      case)
            if start != '%d:%d' % (r[0] + 1, r[1] + 1) or end != endp:
                o.bad('position', '%r rendered %r %r' % (r, start, end), case)
            for what, got, w in (('location', floc, name + ':' + want),
                                 ('Loc-stream', stream,
                                  name + ':' + want + '|'),
                                 ('Loc-string', string, name + ':' + want)):
                if got != w:
                    o.bad(what, '%r is %r, expected %r' % (r, got, w), case)
            if not eq:
                o.bad('equality', 'comparison of ranges %r' % (r,), case)
        if a['shared'] != shared:
            o.bad('shared-stream', 'several locations in one stream: %r, '
                  'expected %r' % (a['shared'][:200], shared[:200]), [name, rs])
    o.sample('%r %r -> %s' % (groups[0][0], groups[0][1][0],
                              expect(groups[0][1][0])))
    return o


def main():
    c = Check('C05', 'All ranges within a 7x7 (thorough: 13x13) grid plus '
              'random ranges of all magnitudes up to 2^31-2, rendered through '
              'every public way; compared with an independent formatter and '
              'parsed back. Distinct: kind of range, digits of each '
              'coordinate, small column differences.',
              min_evaluations=2000, min_distinct=200,
              assumptions=['ranges do not end at column 0 of a later line '
                           '(nothing the tool reports does)'])
    binary = built(build.probe, 'loc')
    k = c.n(7, 13)
    pts = [(l, q) for l in range(k) for q in range(k)]
    grid = [a + b for a in pts for b in pts
            if a <= b and not (b[0] > a[0] and b[1] == 0)]
    jobs = []
    for i in range(0, len(grid), 400):
        jobs.append((binary, [('BUILD', grid[i:i + 400])]))
    for s in c.seeds(c.n(32, 400)):
        r = random.Random(s)
        jobs.append((binary, [(r.choice(NAMES), list(gen(r, 40)))
                              for _ in range(30)]))
    c.pool(batch, jobs)
    c.finish()


main()
