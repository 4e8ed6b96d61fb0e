"""C13: evaluation. The tree after evaluating against a reference evaluator
applied to the tree before; and what Python makes of a program before and after
it was evaluated by the tool."""
import ast, os, random, re
from common import *
from vlib import gen_build, globref
from vlib.gen_build import Gen, Writer

FILES = ['a.cc', 'b.cc', 'b.h', 'c_test.cc', 'sub/a.cc', 'sub/d.h',
         'sub/deep/e.cc', 'x+y.cc', 'other/BUILD', 'other/z.cc']
GLOBBED = sorted(f for f in FILES + ['BUILD'] if not f.startswith('other/'))
NAMES = ['A', 'B', 'SRCS', 'name', 'x', 'foo', 'LIST', 'glob', 'deps', 'y']


# -- reference
def tree(j):
    """The dump without the positions."""
    if j is None: return None
    k = j[0]
    if k == 'str': return ('str', j[1], j[2])
    if k == 'int': return ('int', j[2])
    if k == 'id': return ('id', j[1])
    if k == 'call': return ('call', j[1]) + tuple(map(tree, j[3:]))
    if k in ('bin', 'un', 'comp'):
        return (k, j[1]) + tuple(map(tree, j[2:]))
    return (k,) + tuple(map(tree, j[1:]))


ESC = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'",
       '\n': ''}


def value(body, raw):
    if raw: return body
    return re.sub(r'\\(.)', lambda m: ESC.get(m[1], m[0]), body, flags=re.S)


class S(str):
    """A string that knows what spellings of backslashes it is made of."""
    spelled = frozenset()

    def __add__(self, other):
        s = S(str(self) + other)
        s.spelled = self.spelled | other.spelled
        return s


def const(e):
    if e[0] != 'str' or len(e) == 2: return e
    s = S(value(e[1], e[2]))
    if '\\' in e[1]: s.spelled = frozenset([e[2]])
    return ('str', s)


class Undecided(Exception):
    """Depends on strings which can not be joined, or escapes in patterns."""


def leaves(e):
    """The operands of a chain of '+'."""
    if isinstance(e, tuple) and e and e[0] == 'bin' and e[1] == '+':
        return leaves(e[2]) + leaves(e[3])
    return [e]


def values(e, mixed=False):
    """Strings by what they mean. Raw ones can not be joined with others if
    these have escapes; such a chain is taken as joined."""
    if not isinstance(e, tuple) or not e: return e
    if e[0] == 'str': return const(e)
    if e[0] == 'bin' and e[1] == '+':
        if not mixed:
            esc = [x[2] for x in leaves(e) if x and x[0] == 'str' and
                   '\\' in x[1]]
            mixed = True in esc and False in esc
        l, r = values(e[2], mixed), values(e[3], mixed)
        if mixed and l and r and l[0] == 'str' and r[0] == 'str':
            return ('str', l[1] + r[1])
        return ('bin', '+', l, r)
    return tuple(values(x) for x in e)


class Eval:
    def __init__(self):
        self.env = {}
        self.done = {}

    def count(self, k):
        self.done[k] = self.done.get(k, 0) + 1

    def program(self, t):
        return (t[0],) + tuple(self.statement(s) for s in t[1:])

    def statement(self, s):
        if s is None or s[0] != 'assign': return self.ev(s)
        left = s[1]
        if left and left[0] == 'id':
            v = self.ev(s[2])
            self.env[left[1]] = v
            return ('assign', left, v)
        # not evaluated, but the variables have other values from now on
        v = self.ev(s[2])
        for x in (left or ())[1:]:
            if isinstance(x, tuple) and x[0] == 'id': self.env.pop(x[1], None)
        return ('assign', left, v)

    def arg(self, a):
        if a is not None and a[0] == 'assign':
            return ('assign', a[1], self.ev(a[2]))
        return self.ev(a)

    def member(self, e):
        if e is None or e[0] == 'id': return e
        if e[0] == 'call': return e[:2] + tuple(map(self.arg, e[2:]))
        if e[0] == 'bin':
            return e[:2] + (self.member(e[2]), self.member(e[3])
                            if e[1] == '.' else self.ev(e[3]))
        return self.ev(e)

    def ev(self, e):
        if e is None: return None
        k = e[0]
        if k == 'str': return const(e)
        if k == 'int': return e
        if k == 'id':
            if e[1] in self.env:
                self.count('variables')
                return self.env[e[1]]
            return e
        if k in ('list', 'tuple', 'map'):
            return (k,) + tuple(map(self.ev, e[1:]))
        if k == 'call':
            name = self.env.get(e[1])
            name = name[1] if name and name[0] == 'id' else e[1]
            e = ('call', name) + tuple(map(self.arg, e[2:]))
            if e[1] == 'glob': return self.glob(e)
            if e[1] == 'select': return self.select(e)
            return e
        if k == 'un': return e[:2] + (self.ev(e[2]),)
        if k == 'tern': return (k,) + tuple(map(self.ev, e[1:]))
        if k == 'assign': return (k, e[1], self.ev(e[2]))
        if k == 'comp':
            hidden = {}
            f = e[2]
            while f is not None and f[0] == 'bin' and f[1] == 'for':
                v = f[3][2]
                for x in ([v] if v[0] == 'id' else v[1:]):
                    if x[0] == 'id' and x[1] in self.env:
                        hidden[x[1]] = self.env.pop(x[1])
                f = f[2]
            out = e[:2] + (self.ev(e[2]),)
            self.env.update(hidden)
            return out
        if k == 'bin':
            if e[1] == '.':
                return ('bin', '.', self.ev(e[2]), self.member(e[3]))
            l, r = self.ev(e[2]), self.ev(e[3])
            if e[1] == '+' and l is not None and r is not None:
                LISTS = ('list', 'tuple', 'map')
                if l[0] in LISTS and l[0] == r[0]:
                    self.count('lists')
                    return l + r[1:]
                if l[0] in LISTS and r[0] not in LISTS:
                    self.count('partial')
                    return l
                if r[0] in LISTS and l[0] not in LISTS:
                    self.count('partial')
                    return r
                if l[0] == 'str' and r[0] == 'str':
                    self.count('strings')
                    return ('str', l[1] + r[1])
            return ('bin', e[1], l, r)
        raise ValueError(k)

    def select(self, e):
        for a in e[2:]:
            if a is None or a[0] != 'map': continue
            for p in a[1:]:
                if p and p[0] == 'bin' and p[1] == ':' and p[2] == (
                        'str', '//conditions:default'):
                    self.count('selects')
                    return p[3]
        return e

    def glob(self, e):
        args, pos = {}, ['include', 'exclude']
        for a in e[2:]:
            if a is None: return e
            if a[0] == 'assign':
                n, v = a[1] and a[1][1], a[2]
            else:
                n, v = (pos.pop(0) if pos else None), a
            if n not in ('include', 'exclude'): continue
            if v is None or v[0] not in ('list', 'tuple', 'map') or \
               any(x is None or x[0] != 'str' for x in v[1:]): return e
            # Patterns are taken as they are written
            if any(len(x[1].spelled) > 1 or
                   x[1].spelled and ('*' in x[1] or x[1] in GLOBBED)
                   for x in v[1:]): raise Undecided
            args[n] = [x[1] for x in v[1:]]
        self.count('globs')
        return ('list',) + tuple(('str', S(f)) for f in GLOBBED if globref.
                                 selected(args.get('include', []),
                                          args.get('exclude', []), f))


# -- programs
PATTERNS = ['*.cc', '**/*.cc', '**', '*.h', 'sub/*', 'sub/**/*.cc', 'a.cc',
            '**/a.cc', 'x+y.cc', '*_test.cc', 'none*']


class G:
    def __init__(self, r):
        self.r = r
        self.junk = Gen(r, depth=2)
        self.vars = {'str': [], 'list': [], 'tuple': [], 'any': []}
        self.names = r.sample(NAMES, r.choice([3, 6, len(NAMES)]))

    def lit(self, s):
        q = self.r.choice('"\'')
        raw = self.r.random() < .06
        return ('str', s, raw, False, ('r' if raw else '') + q + s + q)

    def id(self): return ('id', self.r.choice(self.names))

    def var(self, kind):
        return ('id', self.r.choice(self.vars[kind] or self.names))

    def string(self, d):
        r = self.r
        k = r.randrange(12) if d > 0 else r.randrange(6)
        if k < 4: return self.lit(r.choice(['foo', 'a.cc', 'b', '', ':x',
                                            '//a:b', '\\n', 'a\\\\', 'é',
                                            '\\t\\q', 'x y']))
        if k == 4: return self.junk.string()
        if k == 5: return self.var('str')
        if k < 10: return self.plus(lambda: self.string(d - 1))
        if k == 10: return self.select(lambda: self.string(d - 1))
        return self.unknown(d - 1)

    def plus(self, f):
        e = f()
        for _ in range(self.r.choice([1, 1, 1, 2, 4])):
            e = ('bin', '+', e, f()) if self.r.random() < .8 else \
                ('bin', '+', f(), e)
        return e

    def select(self, f):
        r = self.r
        items = [(self.lit(r.choice([':opt', '//x:y', '@a//b', ':default', '//x:default',
                                    'default', '//conditions', 'DEFAULT',
                                    '//conditions:default2',
                                    '@a//conditions:default',
                                    '//x/conditions:default'])), f())
                 for _ in range(r.choice([0, 1, 2]))]
        if r.random() < .75:
            d = self.lit('//conditions:default')
            if r.random() < .1:
                d = ('bin', '+', self.lit('//conditions'),
                     self.lit(':default'))
            items.insert(r.randrange(len(items) + 1), (d, f()))
        args = [('map',) + tuple(items)]
        if r.random() < .1:
            args.append(('assign', ('id', 'no_match_error'), self.lit('x')))
        return ('call', 'select') + tuple(args)

    def patterns(self):
        r = self.r
        if r.random() < .1: return self.list(1)
        return ('list',) + tuple(self.lit(r.choice(PATTERNS))
                                 for _ in range(r.choice([0, 1, 1, 2, 3])))

    def glob(self):
        r = self.r
        inc, exc = self.patterns(), self.patterns()
        k = r.randrange(6)
        a = lambda n, v: ('assign', ('id', n), v)
        args = [(inc,), (inc, a('exclude', exc)), (a('include', inc),),
                (a('exclude', exc), a('include', inc)), (inc, exc),
                (inc, a('exclude', exc), a('allow_empty', ('id', 'True')))][k]
        return ('call', 'glob') + args

    def list(self, d, kind='list'):
        r = self.r
        k = r.randrange(14) if d > 0 else r.randrange(4)
        if k < 3:
            return (kind,) + tuple(self.expr(d - 1) if r.random() < .2 else
                                   self.string(d - 1)
                                   for _ in range(r.choice([0, 1, 2, 3, 9])))
        if k == 3: return self.var(kind)
        if k < 9: return self.plus(lambda: self.list(d - 1, kind))
        if k == 9: return self.select(lambda: self.list(d - 1, kind))
        if k < 12 and kind == 'list': return self.glob()
        if k == 12:
            return ('comp', 'list', self.string(d - 1),
                    ((self.id(),), self.list(d - 1)))
        return self.unknown(d - 1)

    def unknown(self, d):
        r = self.r
        k = r.randrange(8)
        if k == 0: return ('id', 'UNKNOWN')
        if k == 1: return ('call', r.choice(['fun', 'foo', 'glob2']),
                           self.expr(d), ('assign', self.id(), self.expr(d)))
        if k == 2:
            return ('dot', self.expr(0), r.choice([
                self.id(), ('call', r.choice(['format', 'glob', 'select',
                                              'join']), self.list(d))]))
        if k == 3: return ('idx', self.list(d), self.string(0))
        if k == 4: return ('tern', ('id', 'C'), self.expr(d), self.expr(d))
        if k == 5: return ('bin', r.choice(['%', '*', '|', '==', 'in', '-']),
                           self.expr(d), self.expr(d))
        if k == 6: return ('un', r.choice(['-', 'not']), self.expr(d))
        return self.junk.expr(2)

    def expr(self, d):
        r = self.r
        if d <= 0:
            return r.choice([self.string, self.list])(0) \
                if r.random() < .8 else self.id()
        k = r.randrange(10)
        if k < 3: return self.string(d)
        if k < 6: return self.list(d)
        if k == 6: return self.list(d, 'tuple')
        if k == 7: return ('map',) + tuple(
            (self.string(d - 1), self.expr(d - 1))
            for _ in range(r.choice([0, 1, 2])))
        return self.unknown(d)

    def statement(self):
        r = self.r
        k = r.randrange(10)
        if k < 4:
            kind = r.choice(['str', 'list', 'list', 'tuple', 'any'])
            v = self.string(3) if kind == 'str' else \
                self.expr(2) if kind == 'any' else self.list(3, kind)
            n = r.choice(self.names)
            for l in self.vars.values():
                if n in l: l.remove(n)
            self.vars[kind].append(n)
            return ('assign', ('id', n), v)
        if k == 4 and r.random() < .4:
            l = ('tuple', self.id(), self.id())
            return ('assign', l, ('tuple', self.expr(1), self.expr(1)))
        if k == 5 and r.random() < .5: return self.junk.call(2)
        return ('call', r.choice(['cc_library', 'my_rule', 'load'])) + tuple(
            ('assign', ('id', r.choice(['name', 'srcs', 'hdrs', 'deps', 'A'])),
             r.choice([self.string, self.list, self.expr])(3))
            if r.random() < .9 else self.expr(2)
            for _ in range(r.choice([0, 1, 2, 3])))


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = []
    pkg = r.choice(['//', '//p', '//p/q.r'])
    for _ in range(n):
        g = G(r)
        prog = [g.statement() for _ in range(r.choice([1, 3, 6, 10]))]
        cases.append(Writer(r, minimal=True).text(prog))
    with Scratch() as d:
        files = {pkg[2:] + '/' + f if pkg != '//' else f: ''
                 for f in FILES + ['BUILD']}
        write_tree(d, files)
        answers = core.probe_batch(binary, 'elab', [[pkg, c] for c in cases],
                                   cwd=d)
    for s, a in zip(cases, answers):
        o.evaluations += 1
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), s)
            continue
        if a['info']:
            o.bad('message', a['info'][:300], s)
            continue
        before, after = tree(a['before']), tree(a['after'])
        e = Eval()
        try: want = e.program(before)
        except Undecided:
            o.count('undecided')
            continue
        for k, v in e.done.items(): o.count(k, v)
        if e.done: o.sigs.add(sig(before))
        got = values(after)
        if got != want:
            o.bad('other value', gen_build.first_diff(got, want), s)
    return o


# -- judged by Python
class P:
    """Programs all of which can be evaluated, as text."""
    def __init__(self, r):
        self.r = r
        self.str, self.list = [], []

    def q(self, s):
        return self.r.choice(['"%s"', "'%s'", '"""%s"""', "'''%s'''"]) % s

    def s(self, d=2):
        r = self.r
        k = r.randrange(8) if d > 0 else r.randrange(3)
        if k < 2: return self.q(r.choice(['a', 'b.cc', '', ':x', 'x y', '#',
                                          '\\n', '\\\\', '\\"', "\\'", '$']))
        if k == 2: return r.choice(self.str) if self.str else self.q('z')
        if k == 3: return 'r' + self.q(r.choice(['a', 'x\\d', 'b']))
        if k < 7: return self.s(d - 1) + r.choice([' + ', '+']) + self.s(d - 1)
        return '(' + self.s(d - 1) + ')'

    def l(self, d=3):
        r = self.r
        k = r.randrange(12) if d > 0 else r.randrange(3)
        if k < 2: return '[' + ', '.join(
            self.s(d - 1) for _ in range(r.choice([0, 1, 2, 4]))) + ']'
        if k == 2: return r.choice(self.list) if self.list else '[]'
        if k < 6: return self.l(d - 1) + ' + ' + self.l(d - 1)
        if k == 6: return '(' + self.l(d - 1) + ')'
        if k < 9:
            items = ['"%s:%d": %s' % (r.choice(['//c', '//conditions',
                                                '//c:default', '']),
                                      i, self.l(d - 1))
                     for i in range(r.choice([0, 1, 2]))]
            items.insert(r.randrange(len(items) + 1),
                         '"//conditions:default": ' + self.l(d - 1))
            return 'select({' + ', '.join(items) + '})'
        pats = lambda: '[' + ', '.join('"%s"' % r.choice(PATTERNS)
                                       for _ in range(r.choice([1, 2]))) + ']'
        return 'glob(%s%s%s)' % (
            r.choice(['', 'include = ']), pats(),
            ', exclude = ' + pats() if r.random() < .4 else '')

    def other(self):
        """Not evaluated by the tool, but what is in there."""
        r = self.r
        L = lambda: r.choice(self.list) if self.list else '["q"]'
        S = lambda: r.choice(self.str) if self.str else '"q"'
        return r.choice([
            lambda: '[y + "1" for y in %s]' % L(),
            # (hides A, also in what is iterated over)
            lambda: '[A + %s for A in %s]' % (
                self.q('n'), r.choice([l for l in self.list if l != 'A'] or
                                      ['["q"]'])),
            lambda: '"%%s-%%s" %% (%s, %s)' % (S(), S()),
            lambda: '"{}".format(%s)' % self.s(),
            lambda: '",".join(%s)' % self.l(1),
            lambda: '{%s: %s, "k": %s}' % (S(), self.l(), self.s()),
            lambda: '(%s, %s)' % (self.s(), self.l()),
            lambda: '(%s, %s) + (%s,)' % (self.s(), self.s(), self.s()),
            lambda: '%s if %s == %s else %s' % (self.l(1), S(), S(), S()),
            lambda: '%s[0:1]' % L(), lambda: 'len(%s)' % self.l(),
            lambda: '%s in %s' % (S(), L()), lambda: 'not %s' % L(),
            lambda: '[%s, [%s]]' % (self.l(), self.s()),
            lambda: str(r.choice([0, 7, 123456789])), lambda: '-3',
            lambda: '1 + 2', lambda: 'wrap(A = %s, x = %s)' % (
                self.l(), self.s())])()

    def program(self):
        r = self.r
        out, calls = [], 0
        for _ in range(r.choice([3, 6, 12])):
            k = r.randrange(6)
            if k == 0:
                n = r.choice(['A', 'B', 'name', 'x', 'srcs'])
                out.append('%s = %s' % (n, self.s()))
                if n in self.list: self.list.remove(n)
                if n not in self.str: self.str.append(n)
            elif k == 1:
                n = r.choice(['A', 'L', 'deps', 'x', 'srcs'])
                out.append('%s = %s' % (n, self.l()))
                if n in self.str: self.str.remove(n)
                if n not in self.list: self.list.append(n)
            else:
                calls += 1
                args = ['name = ' + self.s()] + [
                    '%s = %s' % (n, f()) for n, f in r.sample([
                        ('srcs', self.l), ('deps', self.l), ('A', self.s),
                        ('x', self.other), ('data', self.other)],
                        r.randrange(6))]
                r.shuffle(args)
                out.append('%s(%s)' % (r.choice(['cc_library', 'my_rule']),
                                       r.choice([', ', ',\n    ']).join(args)))
        return '\n'.join(out) + '\n', calls


def python(text, final):
    """-> recorded calls"""
    calls = []

    def rule(kind):
        return lambda *a, **kw: calls.append((kind, a, kw))

    def unevaluated(*a, **kw): raise RuntimeError('not evaluated')

    def glob(include=(), exclude=()):
        return [f for f in GLOBBED if globref.selected(include, exclude, f)]
    env = {'cc_library': rule('cc_library'), 'my_rule': rule('my_rule'),
           'wrap': lambda **kw: ('wrap', kw), 'len': len,
           'glob': unevaluated if final else glob,
           'select': unevaluated if final else
           lambda d: d['//conditions:default']}
    env['__builtins__'] = {}
    exec(compile(ast.parse(text), 'BUILD', 'exec'), env)
    return calls


def printed(out):
    """-> package -> statements"""
    parts = re.split(r'^# (.*)$\n', out.decode(), flags=re.M)
    got = {}
    for head, body in zip(parts[1::2], parts[2::2]):
        m = re.search(r'(p\d)\b', head)
        if m: got[m[1]] = got.get(m[1], '') + body
    return got


def python_case(bant, seed):
    import warnings
    warnings.simplefilter('ignore')
    o = Out()
    r = random.Random(seed)
    texts = {}
    with Scratch() as d:
        files = {'MODULE.bazel': ''}
        for pkg in ['p%d' % i for i in range(6)]:
            while True:
                texts[pkg], n = P(r).program()
                if n: break
            files.update({pkg + '/' + f: '' for f in FILES})
            files[pkg + '/BUILD'] = texts[pkg]
        write_tree(d, files)
        res = run2([bant, 'print', '-e', '//...'], cwd=d)
        got = printed(res.out)
        # ... and that once more
        for pkg in texts:
            write_tree(d, {pkg + '/BUILD': got.get(pkg, '')})
        again = printed(run2([bant, 'print', '-e', '//...'], cwd=d).out)
    if res.crashed or res.timed_out or res.rc:
        o.bad('command failed', '%d %r' % (res.rc, res.err[-500:]), texts)
        return o
    for pkg, text in texts.items():
        o.evaluations += 1
        o.sigs.add(sig(text))
        want = python(text, False)
        try: have = python(got.get(pkg, ''), True)
        except Exception as e:
            o.bad('printed program does not work', '%r: %s' % (
                e, got.get(pkg)), (text, got.get(pkg)))
            continue
        o.count('targets', len(want))
        o.count('values', sum(len(k[2]) for k in want))
        if have != want:
            diff = [(w, h) for w, h in zip(want, have) if w != h]
            o.bad('other attributes', repr(diff[:1] or len(have)),
                  (text, got.get(pkg)))
            continue
        # Strings that can not be joined are still a sum
        if again.get(pkg) != got[pkg] and python(again[pkg], True) != want:
            x = [l for l in (again.get(pkg) or '').split('\n')
                 if l not in got[pkg].split('\n')]
            o.bad('evaluating again changes it', '%r' % x[:2],
                  (text, got.get(pkg)))
    return o


def main():
    c = Check('C13', 'Random programs of variables, concatenations, selects, '
              'globs and anything else the language has; distinct trees of '
              'which something was evaluated, and program texts.',
              min_evaluations=5000, min_distinct=4000,
              assumptions=['Strings without numeric escapes',
                           'select() takes its default'])
    binary = built(build.probe, 'fe')
    bant = built(build.bant)
    c.pool(batch, [(binary, s, c.n(100, 400))
                   for s in c.seeds(c.n(150, 2000))])
    c.pool(python_case, [(bant, s)
                         for s in c.seeds(c.n(300, 8000), 'python')])
    c.finish()


main()
