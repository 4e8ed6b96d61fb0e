"""C14: which targets with which attributes are found in generated BUILD files:
in the library, and with list-targets and print."""
import json, random, re
from common import *
from vlib import gen_build, lexgen
from vlib.gen_build import Gen, Writer

RULES = ['cc_library', 'cc_library', 'cc_binary', 'cc_test', 'alias',
         'genrule', 'proto_library', 'my_rule', 'cc_library_x', 'filegroup']
FILTERS = [None, {'cc_library'}, {'cc_library', 'alias', 'genrule'},
           {'cc_test', 'no_such_rule'}]
STR = ['actual', 'version', 'repo_name', 'deprecation', 'include_prefix',
       'strip_include_prefix']
LISTS = ['srcs', 'hdrs', 'textual_hdrs', 'public_hdrs', 'deps', 'outs',
         'visibility', 'includes']
BOOLS = ['alwayslink', 'testonly']


def strings(e, out):
    """Everything print -g looks at."""
    if isinstance(e, tuple) and e:
        if e[0] == 'str':
            out.append(e[1])
            return out
        if e[0] == 'id': out.append(e[1])
        if e[0] == 'call': out.append(e[1])
        if e[0] == 'int': return out
        for x in e[isinstance(e[0], str):]: strings(x, out)
    elif isinstance(e, list):
        for x in e: strings(x, out)
    return out


class G:
    def __init__(self, r):
        self.r, self.g = r, Gen(r, depth=2)
        self.n = 0

    def noise(self):
        """Not a call of its own, and nothing a target could be taken for."""
        r = self.r
        while True:
            k = r.randrange(4)
            if k == 0: s = ('assign', self.g.ident(), self.g.expr(2))
            elif k == 1: s = ('list',) + self.g.several(2)
            elif k == 2:
                # targets that are only mentioned
                s = ('assign', ('id', 'x%d' % r.randrange(9)),
                     self.target()[0])
            else: s = ('call', r.choice(['load', 'exports_files', 'foo']),
                       self.g.string(), ('list', self.g.string()))
            if k != 1 or 'call' not in gen_build.kinds(s): return s

    def str(self, s):
        """A string literal with that content."""
        q = self.r.choice('"\'')
        if self.r.random() < .1: return ('str', s, False, True, q*3 + s + q*3)
        return ('str', s, False, False, q + s + q)

    def word(self):
        r = self.r
        return r.choice(['a', ':b', '//c:d', 'foo.cc', 'x/y.h', '@e//f', '.',
                         'some text', '//visibility:public', '1.0', 'é'])

    def nested(self):
        """Carries attributes of its own that are none of the target's."""
        r = self.r
        inner = ('call', r.choice(['cc_library', 'dict', 'f', 'select'])) + \
            tuple(('assign', ('id', a), v) for a, v in [
                ('name', self.str('inner%d' % r.randrange(9))),
                (r.choice(LISTS), ('list', self.str('inner.cc'))),
                (r.choice(STR), self.str('inner')),
                (r.choice(BOOLS), ('id', 'True'))] if r.random() < .6)
        k = r.randrange(5)
        if k == 0: return inner
        if k == 1: return ('list', inner, self.g.string())
        if k == 2: return ('assign', ('id', 'kw%d' % r.randrange(9)), inner)
        if k == 3: return ('assign', ('id', r.choice(['data', 'tags', 'kw'])),
                           ('list', inner))
        return ('map', (self.g.string(), inner))

    def target(self, package=False):
        """-> (tree, expected or None)"""
        r = self.r
        rule = r.choice(RULES)
        want = {'rule': rule, 'name': '', 'default': True}
        args = []
        if r.random() < .93:
            self.n += 1
            want['name'] = r.choice(['t%d', 'x-%d', 'lib%d.a', 'd/%d', 'ä%d'
                                     ]) % self.n
            v = self.str(want['name'])
            args.append(('assign', ('id', 'name'), v))
        for a in STR:
            want[a] = ''
            if r.random() < .12:
                if r.random() < .8:
                    want[a] = self.word()
                    v = self.str(want[a])
                else:    # not known without evaluation
                    v = r.choice([self.g.ident(), ('list', self.g.string())])
                args.append(('assign', ('id', a), v))
        for a in LISTS:
            want[a] = None
            if r.random() < .2:
                if r.random() < .85:
                    l = [self.word() for _ in range(r.choice([0, 1, 2, 5]))]
                    t = [self.str(x) for x in l]
                    while r.random() < .2:
                        t.insert(r.randrange(len(t) + 1), self.g.ident())
                    want[a] = l
                    v = ('list',) + tuple(t)
                else:
                    v = r.choice([self.g.ident(), ('call', 'glob', (
                        'list', self.str('*.cc'))), ('bin', '+', (
                            'list', self.str('a')), ('id', 'B'))])
                args.append(('assign', ('id', a), v))
        for a in BOOLS:
            want[a] = False
            if r.random() < .2:
                t, want[a] = r.choice([(('id', 'True'), True),
                                       (('id', 'False'), False),
                                       (('int', '1', 1), True),
                                       (('int', '0', 0), False)])
                args.append(('assign', ('id', a), t))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            args.append(self.nested())
        for _ in range(r.choice([0, 0, 1])):
            v = self.g.expr(2)
            args.append(('assign', ('id', r.choice(['copts', 'data', 'tags',
                                                    'n', 'names', 'dep',
                                                    'name_', 'src'])), v))
        r.shuffle(args)
        if rule == 'cc_library' and not want['hdrs'] and not any(
                a[0] == 'assign' and a[1] == ('id', 'hdrs') and
                a[2][0] == 'list' and len(a[2]) > 1 for a in args):
            want['alwayslink'] = True
        return ('call', rule) + tuple(args), want

    def program(self):
        r = self.r
        stmts, wants = [], []
        default = None
        for _ in range(r.choice([1, 3, 8])):
            k = r.randrange(10)
            if k < 3:
                stmts.append(self.noise())
                continue
            if k == 3 and r.random() < .5:
                default = ['//v:%d' % r.randrange(9)]
                stmts.append(('call', 'package', (
                    'assign', ('id', 'default_visibility'),
                    ('list', self.str(default[0])))))
                continue
            t, w = self.target()
            vis = next((a for a in t[2:] if a[0] == 'assign' and
                        a[1] == ('id', 'visibility')), None)
            if vis is None or vis[2][0] != 'list': w['visibility'] = default
            w['tree'] = t
            k = r.randrange(12)
            if k == 0: t = ('dot', ('id', 'native'), t)
            stmts.append(t)
            wants.append(w)
        return stmts, wants


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = []
    for _ in range(n):
        stmts, wants = G(r).program()
        text = Writer(r).text(stmts)
        cases.append((text, wants))
    for (text, wants), a in zip(cases, core.probe_batch(
            binary, 'project', [['', '//p/q', c[0]] for c in cases])):
        o.evaluations += 1
        o.sigs.add(sig([(w['rule'], sorted(k for k in w if w[k]))
                        for w in wants]))
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), text)
            continue
        got = [t for t in a['targets']
               if t[1] not in ('load', 'exports_files', 'foo')]
        if len(got) != len(wants):
            o.bad('number of targets', '%r instead of %r: %s' % (
                [(g[1], g[2]) for g in got],
                [(w['rule'], w['name']) for w in wants], text), text)
            continue
        for g, w in zip(got, wants):
            have = dict(zip(['pkg', 'rule', 'name'] + STR + LISTS + BOOLS, g))
            o.count('targets')
            for k in have:
                if k == 'pkg':
                    continue
                o.count('attributes', bool(w[k]))
                x = have[k]
                if k in LISTS:
                    x, y = list(x or []), list(w[k] or [])
                else:
                    y = w[k]
                if x != y:
                    o.bad('attribute ' + k, '%s %s: %s is %r instead of %r in '
                          '%s' % (w['rule'], w['name'], k, x, y, text), text)
                    break
        for f, g in zip(FILTERS, a['filtered']):
            want = [[w['rule'], w['name']]
                    for w in wants
                    if w['name'] and (f is None or w['rule'] in f)]
            o.count('filtered', len(want))
            if g != want:
                o.bad('rule filter', '%r: %r instead of %r in %s' % (
                    f, g, want, text), text)
                break
    o.sample(cases[0][0][:300])
    return o


def command_case(bant, seed):
    o = Out()
    r = random.Random(seed)
    files, all_ = {'MODULE.bazel': ''}, []
    for p in r.sample(['', 'a', 'a/b', 'ab', 'z.d'], r.choice([1, 2, 4])):
        stmts, wants = G(r).program()
        name = (p + '/' if p else '') + 'BUILD'
        text = Writer(r).text(stmts)
        files[name] = text.encode('latin-1')
        for w in wants: all_.append((p, name, text, w))
    with Scratch() as d:
        write_tree(d, files)
        res = run2([bant, 'list-targets', '-f', 'json'], cwd=d)
        o.evaluations += 1
        o.sigs.add(sig(files))
        if res.crashed or res.timed_out or res.rc != 0:
            o.bad('command failed', repr(res.err[-500:]), files)
            return o
        got = [json.loads(l) for l in res.out.decode('latin-1').splitlines()]
        for g in got:
            f, line, col = g['file-location'].split(':')[:3]
            g['pkg'] = f[2:] if f.startswith('./') else f
            g['pos'] = (int(line), int(re.match(r'\d+', col)[0]))
        seen = {}
        for g in got: seen.setdefault(g['pkg'], []).append(g)
        for pfile in {a[1] for a in all_}:
            mine = [a for a in all_ if a[1] == pfile and a[3]['name']]
            have = [g for g in seen.get(pfile, [])
                    if g['rule'] not in ('load', 'exports_files', 'foo')]
            if len(mine) != len(have):
                o.bad('list-targets: number', '%r instead of %r' % (
                    [g['target'] for g in have],
                    [a[3]['name'] for a in mine]), files)
                continue
            for (p, name, text, w), g in zip(mine, have):
                o.count('listed')
                label = '//' + p if p and p.split('/')[-1] == w['name'] \
                    else '//%s:%s' % (p, w['name'])
                lines = text.encode('latin-1').split(b'\n')
                at = lines[g['pos'][0] - 1][g['pos'][1] - 1:]
                if (g['rule'], g['target']) != (w['rule'], label) or \
                   not at.startswith(w['name'].encode('latin-1')):
                    o.bad('list-targets: row', '%r for %s %s' % (
                        g, w['rule'], label), files)
                    break
        # -- print, all and with regular expression
        for _ in range(3):
            words = [s for a in all_ for s in strings(a[3]['tree'], [])] or \
                ['a']
            s = r.choice(words)
            i = r.randrange(len(s) + 1)
            s = s[i:i + r.choice([1, 3, 6])]
            rx = re.escape(s) if s.isascii() and s.isprintable() else 'inner'
            if r.random() < .2: rx = r.choice(['t[0-9]', 'lib.*a', 'a|z', 'q+',
                                               'nowhere_to_be_found'])
            flags = []
            if r.random() < .4:
                flags = ['-i']
                if re.fullmatch('[a-z]+', rx): rx = rx.upper()
            res = run2([bant, 'print', '-g', rx] + flags + ['//...'], cwd=d)
            o.evaluations += 1
            pat = re.compile(rx, re.I if flags else 0)
            want = sorted(
                (a[1], a[3]['rule']) for a in all_
                if any(pat.search(x) for x in strings(a[3]['tree'], [])))
            gp = sorted(
                ((m[1][2:] if m[1].startswith('./') else m[1]), m[2])
                for m in re.finditer(r'^# (\S*?):\d+:\d\S*[^\n]*\n(\w+)\(',
                                     res.out.decode('latin-1'),
                                     re.M)
                if m[2] not in ('load', 'exports_files', 'foo', 'package'))
            o.count('grep_matches', len(want))
            if res.rc != 0 or res.crashed:
                o.bad('print -g failed', '%r %r' % (rx, res.err[-300:]), files)
            elif gp != want:
                o.bad('print -g', '%r %r: %r instead of %r' % (
                    rx, flags, gp[:6], want[:6]), files)
    return o


def main():
    c = Check('C14', 'Generated BUILD files with targets (arguments in random '
              'order, layout and with nested calls that have attributes of '
              'their own) between other statements. Distinct: attributes '
              'present.', min_evaluations=3000, min_distinct=1000)
    binary = built(build.probe, 'fe')
    bant = built(build.bant)
    c.pool(batch, [(binary, s, c.n(80, 400)) for s in c.seeds(c.n(64, 1000))])
    c.pool(command_case, [(bant, s)
                          for s in c.seeds(c.n(300, 6000), 'cmd')])
    c.finish()


if __name__ == "__main__": main()
