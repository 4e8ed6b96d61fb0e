"""Generates BUILD files in the supported language together with the tree they
mean. Trees are tuples:
 ('int', text, value) ('str', body, raw, triple) ('id', name)
 ('list'|'tuple', e...) ('map', (k, v)...) ('call', name, arg...)
 ('assign', lhs, e) ('bin', op, l, r) ('un', op, e) ('tern', c, pos, neg|None)
 ('dot', l, r) ('idx', base, e) ('slice', base, a|None, b|None)
 ('comp', 'list'|'map', e, (vars, iterable)...)
Operands of operators are put in parentheses unless they are primaries; chains
of '+' and of '.' (associative for a reader) are written without."""
import re
from vlib import lexgen

BINOPS = ['+', '-', '*', '/', '%', '<', '<=', '==', '>=', '>', '!=', 'in',
          'not in', 'and', 'or', '|']


class Gen:
    def __init__(self, r, depth=4, group=True):
        self.r, self.depth = r, depth
        self.group = group   # grouped (parenthesised) operands

    # -- trees
    def string(self):
        r = self.r
        t = lexgen.string(r)
        raw = t[0] in 'rR'
        b = t[1:] if raw else t
        triple = len(b) >= 6 and b[:3] in ('"""', "'''")
        return ('str', b[3:-3] if triple else b[1:-1], raw, triple, t)

    def number(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            v = r.choice([0, 1, 255, 2**31, 2**63 - 1, r.getrandbits(40)])
            return ('int', r.choice(['0x%x', '0x%X']) % v, v)
        if k == 1:
            v = r.choice([0, 7, 8, r.getrandbits(30)])
            return ('int', '0o%o' % v, v)
        v = r.choice([0, 1, 2, 7, 10, 42, 2**31, 2**32, 2**63 - 1,
                      r.getrandbits(20)])
        return ('int', str(v), v)

    def ident(self):
        return ('id', lexgen.ident(self.r))

    def expr(self, d=None):
        r = self.r
        d = self.depth if d is None else d
        if d <= 0:
            return r.choice([self.string, self.number, self.ident])()
        k = r.randrange(30)
        if k < 4: return self.string()
        if k < 6: return self.number()
        if k < 8: return self.ident()
        if k < 12:
            return ('list',) + self.several(d)
        if k < 14:
            return ('tuple',) + self.several(d)
        if k < 16:
            return ('map',) + tuple(
                (self.expr(0), self.expr(d - 1))
                for _ in range(r.choice([0, 1, 1, 2, 3, 9])))
        if k < 19:
            return self.call(d)
        if k < 21:
            n = r.choice([2, 2, 3, 5])
            e = self.expr(d - 1)
            for _ in range(n - 1):
                e = ('bin', '+', e, self.expr(d - 1))
            return e
        if k < 23:
            return ('bin', r.choice(BINOPS), self.expr(d - 1),
                    self.expr(d - 1))
        if k == 23:
            return ('un', r.choice(['-', 'not', '!']), self.expr(d - 1))
        if k == 24:
            return ('tern', self.expr(d - 1), self.expr(d - 1),
                    self.expr(d - 1))
        if k == 25:
            e = r.choice([self.string, self.ident])()
            for _ in range(r.choice([1, 1, 2])):
                e = ('dot', e, r.choice([lambda: self.call(d - 1),
                                         self.ident])())
            return e
        if k == 26:
            b = r.choice([self.ident, lambda: self.call(d - 1),
                          lambda: ('list',) + self.several(d - 1)])()
            for _ in range(r.choice([1, 1, 2])):
                b = ('idx', b, self.expr(d - 1))
            return b
        if k == 27:
            a, z = r.choice([(1, 1), (1, 0), (0, 1)])
            return ('slice', self.ident(), self.expr(d - 1) if a else None,
                    self.expr(d - 1) if z else None)
        return self.comp(d)

    def comp(self, d):
        r = self.r
        fors = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            vs = tuple(self.ident() for _ in range(r.choice([1, 1, 2, 3])))
            it = self.expr(d - 1)
            fors.append((vs, it))
        if r.random() < .7:
            return ('comp', 'list', self.expr(d - 1)) + tuple(fors)
        return ('comp', 'map', (self.expr(0), self.expr(d - 1))) + tuple(fors)

    def several(self, d):
        n = self.r.choice([0, 1, 1, 2, 3, 3, 8, 17])
        if n > 4:
            return tuple(self.expr(0) for _ in range(n))
        return tuple(self.expr(d - 1) for _ in range(n))

    def call(self, d):
        r = self.r
        args = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 12])):
            e = self.expr(d - 1)
            if r.random() < .6:
                e = ('assign', self.ident(), e)
            args.append(e)
        return ('call', lexgen.ident(r)) + tuple(args)

    def statement(self):
        r = self.r
        k = r.randrange(10)
        if k < 3: return ('assign', self.ident(), self.expr())
        if k < 7: return self.call(self.depth)
        if k == 7: return ('list',) + self.several(self.depth)
        if k == 8:
            return r.choice([
                lambda: ('dot', self.ident(), self.call(self.depth - 1)),
                lambda: ('assign', ('tuple',) + tuple(
                    self.ident() for _ in range(r.randrange(1, 4))),
                    self.expr())])()
        c = self.comp(self.depth)
        return c if c[1] == 'list' else ('assign', self.ident(), c)

    def program(self, n):
        return [self.statement() for _ in range(n)]


LEVELS = {'or': 1, 'and': 2, '|': 5, '+': 6, '-': 6, '*': 7, '/': 7, '%': 7}


def level_of(e):
    if e[0] == 'tern': return 0
    if e[0] == 'bin': return LEVELS.get(e[1], 4)
    if e[0] == 'un': return 8 if e[1] == '-' else 3
    return 9


class Writer:
    """Tree -> text with random layout."""
    def __init__(self, r, plain=False, bare=False, minimal=False):
        self.r, self.plain = r, plain
        self.minimal = minimal  # no parentheses where precedence does it
        self.bare = bare    # no parentheses around operands
        self.toks = []

    def text(self, stmts):
        r = self.r
        out = []
        for s in stmts:
            if not self.plain and r.random() < .1:
                out.append(r.choice(['# comment\n', '"""doc "string\'"""\n',
                                     '\n\n', "'doc'\n"]))
            self.toks = []
            self.write(s)
            out.append(self.layout() + '\n')
        return ''.join(out)

    def layout(self):
        r = self.r
        o, prev, depth = [], None, 0
        for t in self.toks:
            if prev is not None:
                need = (prev[-1].isalnum() or prev[-1] == '_') and \
                    (t[0].isalnum() or t[0] in '_"\'') or \
                    (prev in ('<', '>', '=', '!') and t[0] == '=') or \
                    (prev[0].isdigit() and t[0] == '.') or \
                    (prev[-1] in '"\'' and t[0] == prev[-1])
                if self.plain:
                    o.append(' ')
                elif depth > 0:
                    o.append(lexgen.gap(r, need))
                else:
                    o.append(r.choice([' ', '  ', '\t', ' \t'])
                             if need else r.choice(['', ' ', '  ', '\t', ' \\\n']))
            if t in ('(', '[', '{'): depth += 1
            if t in (')', ']', '}'): depth -= 1
            o.append(t)
            prev = t
        return ''.join(o)

    def put(self, *toks):
        self.toks += toks

    def seq(self, items, open_, close, trailing=True):
        self.put(open_)
        for i, e in enumerate(items):
            if i:
                self.put(',')
            e()
        if items and trailing and self.r.random() < .4:
            self.put(',')
        self.put(close)

    def tight(self, e, level):
        """In parentheses only if needed for it to be an operand of an
        operator of that level (0: loosest)."""
        if self.bare or level_of(e) >= level:
            self.write(e)
        else:
            self.put('(')
            self.write(e)
            self.put(')')

    def operand(self, e, chain=None, level=None):
        """In parentheses unless it binds tighter than any operator."""
        k = e[0]
        if self.minimal and level is not None:
            return self.tight(e, level)
        if self.bare:
            self.write(e)
        elif k in ('bin', 'tern', 'un'):
            self.put('(')
            self.write(e)
            self.put(')')
        elif k in ('dot', 'idx', 'slice') and chain != k:
            self.put('(')
            self.write(e)
            self.put(')')
        else:
            self.write(e)

    def write(self, e):
        r = self.r
        k = e[0]
        if k == 'str': self.put(e[4])
        elif k == 'int': self.put(e[1])
        elif k == 'id': self.put(e[1])
        elif k == 'list':
            self.seq([lambda x=x: self.write(x) for x in e[1:]], '[', ']')
        elif k == 'tuple':
            self.seq([lambda x=x: self.write(x) for x in e[1:]], '(', ')',
                     trailing=False) if len(e) != 2 else (
                self.put('('), self.write(e[1]), self.put(',', ')'))
        elif k == 'map':
            self.seq([lambda x=x: (self.write(x[0]), self.put(':'),
                                   self.write(x[1])) for x in e[1:]],
                     '{', '}')
        elif k == 'call':
            self.put(e[1])
            self.seq([lambda x=x: self.write(x) for x in e[2:]], '(', ')')
        elif k == 'assign':
            self.write(e[1])
            self.put('=')
            self.write(e[2])
        elif k == 'bin':
            if e[1] == '+' and e[2][0] == 'bin' and e[2][1] == '+':
                self.write(e[2])   # chain
            else:
                self.operand(e[2], level=level_of(e))
            self.put(e[1])
            self.operand(e[3], level=level_of(e) + 1)
        elif k == 'un':
            self.put(e[1])
            self.operand(e[2], level=level_of(e))
        elif k == 'tern':
            self.operand(e[2], level=1)
            self.put('if')
            self.operand(e[1], level=1)
            if e[3] is not None:
                self.put('else')
                self.operand(e[3], level=0)
        elif k == 'dot':
            self.operand(e[1], 'dot', level=9)
            self.put('.')
            self.write(e[2])
        elif k == 'idx':
            self.operand(e[1], 'idx', level=9)
            self.put('[')
            self.write(e[2])
            self.put(']')
        elif k == 'slice':
            self.operand(e[1], level=9)
            self.put('[')
            if e[2]: self.write(e[2])
            self.put(':')
            if e[3]: self.write(e[3])
            self.put(']')
        elif k == 'comp':
            self.put('[' if e[1] == 'list' else '{')
            if e[1] == 'map':
                self.write(e[2][0])
                self.put(':')
                self.write(e[2][1])
            else:
                self.write(e[2])
            for vs, it in e[3:]:
                self.put('for')
                paren = r.random() < .4
                if paren:
                    self.put('(')
                for i, v in enumerate(vs):
                    if i:
                        self.put(',')
                    self.write(v)
                if paren:
                    self.put(')')
                self.put('in')
                self.operand(it)
            self.put(']' if e[1] == 'list' else '}')
        else:
            raise ValueError(k)


def flat(op, items):
    """One canonical form for either way of associating a chain."""
    out = []
    for i in items:
        if i[0] == 'chain' and i[1] == op:
            out += i[2:]
        else:
            out.append(i)
    return ('chain', op) + tuple(out)


UNOP = {'!': 'not'}


def canon(e):
    """Generator tree -> canonical tree."""
    k = e[0]
    if k == 'str': return e[:4]
    if k in ('int', 'id'): return e
    if k in ('list', 'tuple'): return (k,) + tuple(map(canon, e[1:]))
    if k == 'map':
        return (k,) + tuple(('pair', canon(a), canon(b)) for a, b in e[1:])
    if k == 'call': return (k, e[1]) + tuple(map(canon, e[2:]))
    if k == 'assign': return (k, canon(e[1]), canon(e[2]))
    if k == 'bin':
        l, r = canon(e[2]), canon(e[3])
        return flat('+', [l, r]) if e[1] == '+' else (k, e[1], l, r)
    if k == 'un': return (k, UNOP.get(e[1], e[1]), canon(e[2]))
    if k == 'tern':
        return (k, canon(e[1]), canon(e[2]), e[3] and canon(e[3]))
    if k == 'dot': return flat('.', [canon(e[1]), canon(e[2])])
    if k == 'idx': return (k, canon(e[1]), canon(e[2]))
    if k == 'slice':
        return ('idx', canon(e[1]), ('pair', e[2] and canon(e[2]),
                                     e[3] and canon(e[3])))
    if k == 'comp':
        b = ('pair', canon(e[2][0]), canon(e[2][1])) if e[1] == 'map' \
            else canon(e[2])
        for vs, it in e[3:]:
            b = ('for', b, ('tuple',) + tuple(vs), canon(it))
        return (k, e[1], b)
    raise ValueError(k)


class Bad(Exception):
    pass


def canon_dump(j, src=None):
    """What the probe dumped -> canonical tree. With src, the offsets of
    leaves must lead to their text."""
    def at(off, text):
        if src is not None and src[off:off + len(text)] != text:
            raise Bad('leaf %r not at its offset %d: %r' % (
                text, off, src[off:off + len(text)]))

    def go(j):
        if j is None: return None
        k = j[0]
        if k == 'str':
            at(j[4], j[1])
            return ('str', j[1], j[2], j[3])
        if k == 'int':
            at(j[3], j[1])
            return ('int', j[1], j[2])
        if k == 'id':
            at(j[2], j[1])
            return ('id', j[1])
        if k == 'call':
            at(j[2], j[1])
            return ('call', j[1]) + tuple(map(go, j[3:]))
        if k in ('list', 'tuple', 'map'):
            return (k,) + tuple(map(go, j[1:]))
        if k == 'assign': return (k, go(j[1]), go(j[2]))
        if k == 'un':
            return (k, j[1], go(j[2]))
        if k == 'tern': return (k, go(j[1]), go(j[2]), go(j[3]))
        if k == 'comp': return (k, j[1], go(j[2]))
        if k == 'bin':
            op, l, r = j[1], go(j[2]), go(j[3])
            if op == '+': return flat('+', [l, r])
            if op == '.': return flat('.', [l, r])
            if op == '[': return ('idx', l, r)
            if op == ':': return ('pair', l, r)
            if op == 'for':
                if j[3] is None or j[3][0] != 'bin' or j[3][1] != 'in':
                    raise Bad('malformed for')
                return ('for', l, go(j[3][2]), go(j[3][3]))
            return ('bin', op, l, r)
        raise Bad('unknown node %s' % k)
    return go(j)


def first_diff(a, b, path=''):
    if a == b: return None
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or \
       not b or a[0] != b[0] or len(a) != len(b):
        return '%s: %s instead of %s' % (path, repr(a)[:150], repr(b)[:150])
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return first_diff(x, y, '%s/%s' % (path, a[0]))
    return None


def kinds(e, out=None):
    out = set() if out is None else out
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            out.add(e[0] if e[0] not in ('bin', 'un', 'chain') else
                    e[0] + str(e[1]))
        for x in e:
            kinds(x, out)
    return out


def flatten_ops(e):
    """Canonical tree with the grouping of operators removed: operators and
    operands as one sequence in writing order."""
    def seq(e):
        k = e[0]
        if k == 'chain':
            out = seq(e[2])
            for x in e[3:]:
                out += [('op', e[1])] + seq(x)
            return out
        if k == 'bin': return seq(e[2]) + [('op', e[1])] + seq(e[3])
        if k == 'un': return [('op', 'u' + e[1])] + seq(e[2])
        if k == 'tern':
            out = seq(e[2]) + [('op', 'if')] + seq(e[1])
            return out + [('op', 'else')] + seq(e[3]) if e[3] else out
        if k == 'idx': return seq(e[1]) + [('sub', f(e[2]))]
        return [f(e)]

    def f(e):
        if not isinstance(e, tuple): return e
        if e and e[0] in ('chain', 'bin', 'un', 'tern', 'idx'):
            return ('ops',) + tuple(seq(e))
        return tuple(f(x) for x in e)
    return f(e)
