"""C03: the scanner. Oracles: for any bytes, tokens tile the content with only
white space and comments in between; for generated valid lexemes the exact
token sequence."""
import random, re
from common import *
from vlib import lexgen

# What is not a line end: anything else, and newlines after a backslash.
CONT = re.compile(r'#[^\n]*(?=\n)|\\\r?\n|[^\n]')


def content(r, kind):
    if kind == 'valid':
        return lexgen.lexemes(r, r.choice([1, 2, 3, 8, 30]))
    if kind == 'soup':
        return lexgen.soup(r, r.choice([1, 2, 3, 10, 60])), None
    s, _ = lexgen.lexemes(r, r.choice([3, 10, 30]))
    return lexgen.mutate(r, s), None


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = [(k,) + content(r, k) for k in
             (r.choice(['valid', 'valid', 'soup', 'mutated'])
              for _ in range(n))]
    for (kind, s, want), a in zip(cases, core.probe_batch(
            binary, 'scan', [[c[1]] for c in cases])):
        o.evaluations += 1
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), s)
            continue
        if 'error' in a:
            o.bad(a['error'], '%s: %r' % (a['error'], s[:200]), s)
            continue
        toks = a['toks']
        o.count('tokens', len(toks))
        o.count('contents_' + kind)
        o.sigs.add(sig([t[0] for t in toks]))
        pos, err = 0, None
        for i, (k, off, ln, nl) in enumerate(toks):
            if off < pos:
                err = 'overlap'
            elif not lexgen.GAP.match(s[pos:off].encode('latin-1')):
                err = 'text skipped'
            elif ln == 0 and k != '<<EOF>>':
                err = 'empty token'
            elif k == '<<EOF>>' and (ln != 0 or i + 1 != len(toks) or
                                     off != len(s)):
                err = 'end of file'
            elif k != '<<EOF>>' and not nl and CONT.sub('', s[pos:off]):
                err = 'newline flag missing'
            elif nl and '\n' not in s[pos:off + ln]:
                err = 'newline flag wrong'
            elif k == '<<ERROR>>':
                o.count('error_tokens')
            elif k not in ('<<EOF>>', 'ident', 'string', 'number', 'not in') \
                    and s[off:off + ln] != k and \
                    (s[off:off + ln], k) != ('!', 'not'):
                err = 'kind does not fit text'
            if err:
                o.bad(err, '%s at token %d %r (%s) of %r' % (
                    err, i, s[off:off + ln][:40], k, s[:300]), s)
                break
            pos = off + ln
        if err is None and want is not None:
            got = [tuple(t[:3]) for t in toks[:-1]]
            if got != want:
                i = next((i for i, (g, w) in enumerate(zip(got, want))
                          if g != w), min(len(got), len(want)))
                g = got[i] if i < len(got) else ('nothing', 0, 0)
                w = want[i] if i < len(want) else ('nothing', 0, 0)
                o.bad('lexeme %s became %s' % (w[0], g[0]),
                      'token %d is %s %r, expected %s %r' % (
                          i, g[0], s[g[1]:g[1] + g[2]][:60], w[0],
                          s[w[1]:w[1] + w[2]][:60]), s)
    o.sample(repr(cases[0][1][:80]))
    return o


def main():
    c = Check('C03', 'Contents: sequences of valid lexemes with random layout '
              '(exact tokens known), byte soup, and mutations of the former; '
              'consumed with random look-ahead. Distinct: by sequence of '
              'token kinds.', min_evaluations=2000, min_distinct=800)
    binary = built(build.probe, 'fe')
    c.pool(batch, [(binary, s, c.n(300, 600))
                   for s in c.seeds(c.n(64, 900))])
    c.finish()


main()
