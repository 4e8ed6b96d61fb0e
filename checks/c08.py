"""C08: range map against a brute force reference over random disjoint ranges,
inserted in random order, with lookups in between."""
import random
from common import *


def history(r):
    size = r.choice([1, 5, 40, 300, 5000])
    cuts = sorted(r.randrange(size + 1)
                  for _ in range(2 * r.choice([1, 2, 5, 20, 80])))
    ranges, prev_end = [], -1
    i = 0
    while i + 1 < len(cuts):
        b, e = cuts[i], cuts[i + 1]
        if r.random() < .3 and ranges:
            b = ranges[-1][1]           # touching
        if e > b and b >= prev_end:
            ranges.append((b, e))
            prev_end = e
        i += r.choice([1, 2])
    order = list(ranges)
    r.shuffle(order)
    ops, model, expect = [], {}, []
    points = sorted({p for x in ranges for p in x} |
                    {p + d for x in ranges for p in x for d in (-1, 1)} |
                    {0, size})
    points = [p for p in points if 0 <= p <= size]

    def query():
        a = r.choice(points) if r.random() < .7 else r.randrange(size + 1)
        b = r.choice(points) if r.random() < .5 else a + r.choice(
            [0, 0, 1, 2, r.randrange(size + 1)])
        b = min(b, size)
        if b < a: a, b = b, a
        own = [v for (s, e), v in model.items() if s <= a and b <= e]
        ops.extend(['q', str(a), str(b)])
        # An empty piece between two touching ranges belongs to either.
        expect.append(own or [None])

    for i, x in enumerate(order):
        for _ in range(r.choice([0, 0, 2])):
            query()
        model[x] = 'v%d' % i
        ops.extend(['i', str(x[0]), str(x[1]), 'v%d' % i])
        expect.append([True])
    for _ in range(r.choice([5, 50])):
        query()
    return [str(size)] + ops, expect, (size, len(order))


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = [history(r) for _ in range(n)]
    for (rec, expect, kind), a in zip(cases, core.probe_batch(
            binary, 'ranges', [c[0] for c in cases])):
        o.evaluations += 1
        if isinstance(a, dict):
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), rec)
            continue
        o.sigs.add(sig(rec))
        o.count('inserts', sum(e == [True] for e in expect))
        o.count('lookups_found', sum(e != [True] and e != [None] for e in expect))
        o.count('lookups_absent', sum(e == [None] for e in expect))
        if len(a) != len(expect):
            o.bad('answers missing', '', rec)
            continue
        for i, (got, ok) in enumerate(zip(a, expect)):
            if got not in ok:
                o.bad('wrong lookup' if ok != [True] else 'insert refused',
                      'operation %d: %r instead of %r' % (i, got, ok), rec)
                break
    o.sample('%d operations over %s bytes' % (len(cases[0][1]), cases[0][0][0]))
    return o


def main():
    c = Check('C08', 'Random histories of disjoint insertions in any order '
              'and lookups in between, compared with a linear search; '
              'distinct: by history.', min_evaluations=1000, min_distinct=900)
    binary = built(build.probe, 'util')
    c.pool(batch, [(binary, s, c.n(100, 300)) for s in c.seeds(c.n(64, 2000))])
    c.finish()


main()
