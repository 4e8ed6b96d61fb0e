"""C30: which targets print shows, in which order, with what above them, and
what it marks in them: generated packages of known targets, some with syntax
errors, selected by pattern, -E, -g."""
import json, os, pty, random, re, subprocess
from common import *
import c14
from vlib.gen_build import Writer

BROKEN = [b')', b'cc_library(name = ', b']', b'x = = 1', b'}', b'f(',
          b'[1, 2', b'for x']
MARK = re.compile(rb'\x1b\[7m(.*?)\x1b\[27m', re.S)
ESC = re.compile(rb'\x1b\[[0-9;]*m')
HEAD = re.compile(r'# (\S[^:]*?BUILD(?:\.bazel)?):(\d+):(\d+)(-\d+)?:((?: //.*?)?)'
                  r'((?: \(visibility:.*\))?)$')


def on_terminal(cmd, cwd):
    import termios
    master, slave = pty.openpty()
    attr = termios.tcgetattr(slave)
    attr[1] = 0
    termios.tcsetattr(slave, 0, attr)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=slave,
                         stderr=subprocess.DEVNULL, env=core.env())
    os.close(slave)
    out = b''
    while True:
        try:
            b = os.read(master, 65536)
        except OSError:
            break
        if not b: break
        out += b
    os.close(master)
    return p.wait(), out


def blocks(out):
    """-> list of (header, text)"""
    res = []
    for line in out.split('\n'):
        if HEAD.match(line): res.append([line, []])
        elif res: res[-1][1].append(line)
        elif line: return None
    return [(h, '\n'.join(b)) for h, b in res]


def project(r):
    """-> files, targets: (package, broken, text, tree, wanted)"""
    files, all_ = {'MODULE.bazel': b''}, []
    for p in r.sample(['', 'a', 'a/b', 'ab', 'z.d', 'a/b/c', 'a b'],
                      r.choice([1, 2, 4, 6])):
        g = c14.G(r)
        stmts, wants = g.program()
        text = Writer(r).text(stmts).encode('latin-1')
        broken = r.random() < .3
        if broken:
            if not text.endswith(b'\n'): text += b'\n'
            text += r.choice(BROKEN) + b'\n'
        name = (p + '/' if p else '') + r.choice(['BUILD', 'BUILD.bazel'])
        files[name] = text
        for w in wants: all_.append((p, name, broken, w))
    return files, all_


def label(p, name):
    if p and p.split('/')[-1] == name: return '//' + p
    return '//%s:%s' % (p, name)


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    files, all_ = project(r)
    pkgs = sorted({a[0] for a in all_})
    if not pkgs: return o
    named = [(a[0], a[3]['name']) for a in all_ if a[3]['name']]
    skip = ('load', 'exports_files', 'foo', 'package')
    with Scratch() as d:
        write_tree(d, files)
        for _ in range(5):
            p = r.choice(pkgs)
            pats = [('//...', lambda q, n: True)] * 3
            pats += [('//' + p + ('/...' if p else '...'), lambda q, n:
                      p == '' or q == p or q.startswith(p + '/')),
                     ('//%s:all' % p, lambda q, n: q == p and n != '')]
            if named:
                t = r.choice(named)
                pats.append(('//%s:%s' % t, lambda q, n: (q, n) == t))
            pat, match = r.choice(pats)
            args = ['print', pat]
            only_broken = r.random() < .4
            if only_broken: args.append('-E')
            rx = None
            if r.random() < .6:
                words = [s for a in all_
                         for s in c14.strings(a[3]['tree'], [])] or ['a']
                s = r.choice(words)
                i = r.randrange(len(s) + 1)
                s = s[i:i + r.choice([1, 1, 3, 6])]
                rx = re.escape(s) if s and s.isascii() and s.isprintable() \
                    else 'inner'
                if r.random() < .4: rx = r.choice(
                    ['t[0-9]', 'lib.*a', 'a|z', '[a-c]+', 'x*', '[^a-z]',
                     'nowhere_to_be_found', '(a)(b)?', 'ab|a', '.'])
                args += ['-g', rx]
                flags = 0
                if r.random() < .4:
                    args.append('-i')
                    flags = re.I
                    rx = args[-2] = rx.upper() if re.fullmatch('[a-z]+', rx) \
                        else rx
                rx = re.compile(rx, flags)
            data = (args, {k: v.decode('latin-1') for k, v in files.items()})
            args = [a.encode('latin-1') for a in args]
            res = run2([bant] + args, cwd=d)
            o.evaluations += 1
            o.sigs.add(sig((seed, args)))
            if res.crashed or res.timed_out or res.rc != 0:
                o.bad('command failed', '%r %r' % (args, res.err[-300:]), data)
                continue
            got = blocks(res.out.decode('latin-1'))
            if got is None:
                o.bad('text before the first header', repr(args), data)
                continue
            got = [(h, b) for h, b in got
                   if re.match(r'[\w.]*', b)[0].split('.')[-1] not in skip]
            want, sure = [], True
            for q, f, broken, w in all_:
                if not match(q, w['name']) or only_broken and not broken:
                    continue
                hit = rx is None or any(
                    rx.search(x) for x in c14.strings(w['tree'], []))
                if hit: want.append((q, f, broken, w))
            o.count('shown', len(want))
            o.count('hidden', len(all_) - len(want))
            o.count('broken_files', sum(w[2] for w in want))
            # file by file: order within; the broken statement is not judged
            lines_broken = {f: files[f].count(b'\n') if broken else 0
                            for _, f, broken, _ in all_}
            for f in sorted({a[1] for a in all_}):
                ws = [w for w in want if w[1] == f]
                gs = []
                for h, b in got:
                    m = HEAD.match(h)
                    n = m[1][2:] if m[1].startswith('./') else m[1]
                    if n == f and not (lines_broken[f] and
                                       int(m[2]) >= lines_broken[f]):
                        gs.append((m, b))
                if len(ws) != len(gs):
                    o.bad('number of targets', '%r: %r instead of %r' % (
                        args, [m[0] for m, b in gs],
                        [(w[3]['rule'], w[3]['name']) for w in ws]), data)
                    break
                lines = files[f].split(b'\n')
                last = (0, 0)
                for (m, b), (q, _, _, w) in zip(gs, ws):
                    at = (int(m[2]), int(m[3]))
                    src = lines[at[0] - 1][at[1] - 1:]
                    rule = w['rule']
                    if not src.startswith(rule.encode()) or at <= last or (
                            m[4] or '') != ('-%d' % (at[1] + len(rule) - 1)
                                            if len(rule) > 1 else ''):
                        o.bad('header: position', '%s for %s' % (m[0], rule),
                              data)
                    last = at
                    if not b.startswith((rule + '(', 'native.' + rule + '(')):
                        o.bad('another target', '%r for %s' % (b[:80], rule),
                              data)
                    if m[5].strip() != (label(q, w['name']) if w['name']
                                        else ''):
                        o.bad('header: label', '%s for %r' % (
                            m[0], (q, w['name'])), data)
                    v = w['visibility']
                    v = '' if v is None else \
                        ' (visibility:%s)' % ''.join(' ' + x for x in v)
                    if m[6].encode('latin-1').decode('latin-1') != v:
                        o.bad('header: visibility', '%s for %s' % (m[0], v),
                              data)
            if o.violations: return o
            if rx is None or r.random() < .5: continue
            # What is marked
            rc, out = on_terminal([bant] + args, d)
            o.evaluations += 1
            if rc != 0 or ESC.sub(b'', out) != res.out:
                o.bad('other text on terminal', repr(args), data)
                continue
            marks = sorted(x.decode('latin-1') for x in MARK.findall(out))
            must = sorted(
                m[0] for _, _, _, w in want
                for x in c14.strings(w['tree'], []) for m in rx.finditer(x)
                if m[0])
            extra = len(blocks(res.out.decode('latin-1'))) != len(want)
            if rx.pattern in ('.', '[^a-z]') and not all(
                    x.isascii() for w in want
                    for x in c14.strings(w[3]['tree'], [])):
                continue        # taken as UTF-8
            if extra:           # something else is shown as well
                o.count('marks_undecided')
                continue
            o.count('marks', len(must))
            if marks != must:
                o.bad('marks', '%r: %r instead of %r' % (
                    args, marks[:20], must[:20]), data)
    o.sample(repr(args))
    return o


def main():
    c = Check('C30', 'Generated packages with known targets, a third of them '
              'with a syntax error at the end; print with random patterns, -E '
              'and regular expressions, to a pipe and to a terminal. '
              'Distinct: project and command line.',
              min_evaluations=1000, min_distinct=800)
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(600, 12000))])
    c.finish()


if __name__ == '__main__': main()
