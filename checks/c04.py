"""C04: positions. Oracle: counting newlines in the content."""
import random
from common import *
from vlib import lexgen


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = []
    for _ in range(n):
        k = r.randrange(5)
        if k < 3: s, _t = lexgen.lexemes(r, r.choice([0, 1, 5, 30, 80]))
        elif k == 3: s = lexgen.soup(r, r.choice([1, 5, 60]))
        else: s = lexgen.mutate(r, lexgen.lexemes(r, 20)[0])
        pieces = []
        for _i in range(12):
            a = r.randrange(len(s) + 1)
            b = min(len(s), a + r.choice([0, 1, 2, 10, 100]))
            pieces.append((a, b - a))
        pieces.append((len(s), 0))
        pieces.append((0, len(s)))
        for i in range(4):  # around a newline
            nl = [i for i, c in enumerate(s) if c == '\n']
            if nl:
                a = r.choice(nl)
                d = r.choice([(a, 0), (a, 1), (a + 1, 0), (max(0, a - 1), 1),
                              (max(0, a - 1), 3)])
                pieces.append((d[0], min(d[1], len(s) - d[0])))
        cases.append((s, pieces))
    for mode in ('scan', 'lines'):
        recs = [[s] + [str(x) for p in ps for x in p] for s, ps in cases]
        for (s, ps), a in zip(cases, core.probe_batch(binary, mode, recs)):
            o.evaluations += 1
            if 'crash' in a or 'hang' in a:
                o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), s)
                continue
            if 'error' in a:
                continue  # decided elsewhere
            ref = lexgen.Lines(s)
            views = [(t[1], t[2]) for t in a['toks']] + ps
            o.count('positions', len(views))
            o.count('lines', len(ref.starts))
            o.sigs.add(sig([ref.pos(v[0]) for v in views]))
            for i, ((off, ln), loc) in enumerate(zip(views, a['locs'])):
                name, sl, sc, el, ec, text, streamed, soff, slen = loc
                want = ref.pos(off) + ref.pos(off + ln)
                what = 'token' if i < len(a['toks']) else 'piece'
                if '\n' in s[off:off + ln]:
                    o.count('multi_line')
                if name != 'dir/BUILD' or (sl, sc, el, ec) != want:
                    o.bad('%s %s position' % (mode, what),
                          '%r at offset %d is at %r, not %r, of %r' % (
                              s[off:off + ln][:40], off, (sl, sc, el, ec),
                              want, s[:300]), [s, off, ln])
                    break
                if not text.startswith('dir/BUILD:%d:%d' % (
                        want[0] + 1, want[1] + 1)) or text != streamed:
                    o.bad('%s rendered' % mode, '%r for %r' % (text, want),
                          [s, off, ln])
                    break
                sur = ref.surrounding(off, off + ln)
                if (soff, slen) != sur:
                    o.bad('surrounding line', '%r, expected %r' % (
                        s[soff:soff + slen][:80],
                        s[sur[0]:sur[0] + sur[1]][:80]), [s, off, ln])
                    break
    o.sample('%r: %r' % (cases[0][0][:60], cases[0][1][:3]))
    return o


def main():
    c = Check('C04', 'Contents of lexemes, byte soup and mutations; located: '
              'every token and random pieces (empty, at newlines, spanning '
              'lines, at the end), with the index built by the scanner and '
              'without it. Distinct: by set of positions looked up.',
              min_evaluations=2000, min_distinct=1000)
    binary = built(build.probe, 'fe')
    c.pool(batch, [(binary, s, c.n(120, 250))
                   for s in c.seeds(c.n(64, 900))])
    c.finish()


main()
