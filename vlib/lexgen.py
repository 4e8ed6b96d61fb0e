"""Generates BUILD file text as a sequence of valid lexemes (with the expected
tokens) and arbitrary byte soup; reference positions."""
import re

KEYWORDS = ['for', 'in', 'and', 'or', 'if', 'else', 'not']
PUNCT = ['(', ')', '{', '}', '[', ']', ',', ':', '+', '-', '*', '/', '.', '%',
         '|', '<', '>', '=', '==', '!=', '<=', '>=']
IDENTS = ['a', 'name', 'cc_library', '_x', 'X1', 'inside', 'int', 'nothing',
          'r', 'R', 'rx', 'format', 'iff', 'android', 'orange', 'elsewhere',
          'not_in', 'inn', 'e', 'x0', 'In', 'NOT', '__', 'b', 'If', 'in_', 'in1',
          'index', 'i', 'n', 'no']
GAP = re.compile(rb'(?:[ \t\n\v\f\r\\]|#[^\n]*(?:\n|\Z))*\Z')


def ident(r):
    if r.random() < .7:
        return r.choice(IDENTS)
    s = r.choice('abcrRxyz_Q') + ''.join(
        r.choice('abcinotrf_019XZ') for _ in range(r.randrange(8)))
    return s + '_' if s in KEYWORDS else s


def string_body(r, q, triple, raw):
    out = []
    n = r.choice([0, 0, 1, 2, 5, 12])
    for _ in range(n):
        k = r.randrange(12)
        if k < 5:
            out.append(r.choice('ab/:@_ .#,()[]=+*{}'))
        elif k == 5:
            out.append('\\' + q)
        elif k == 6:
            out.append('\\\\')
        elif k == 7:
            out.append('\\' + r.choice('nt0x"\''))
        elif k == 8:
            out.append('"' if q == "'" else "'")
        elif k == 9:
            out.append('\\\n' if not triple else r.choice(['\n', '\\\n', '\n\n']))
        elif k == 10 and triple:
            out.append(r.choice([q + 'x', q + q + 'y', q + '\\' + q + ' ',
                                 q + r.choice(' \n\tx#') + q +
                                 r.choice(' \n\tx#') + q + ' ',
                                 q + q + r.choice(' \n\\x#') + q + q + 'z']))
        else:
            out.append(r.choice('\x80\xff\xc3\t'))
    return ''.join(out)


def string(r):
    raw = r.random() < .2
    q = r.choice('"\'')
    triple = r.random() < .25
    b = string_body(r, q, triple, raw)
    if triple and b.endswith(q):
        b += ' '
    pre = r.choice('rR') if raw else ''
    w = q * 3 if triple else q
    return pre + w + b + w


def number(r):
    k = r.randrange(6)
    if k == 0:
        return '0'
    if k == 1:
        return '0x' + ''.join(r.choice('0123456789abcdefABCDEF')
                              for _ in range(r.randrange(1, 9)))
    if k == 2:
        return '0o' + ''.join(r.choice('01234567')
                              for _ in range(r.randrange(1, 9)))
    if k == 3:
        return '%d.%d' % (r.randrange(100), r.randrange(100))
    return str(r.randrange(1, 10**r.randrange(1, 9)))


def kind_of(t):
    """Token type name of a lexeme."""
    if t in KEYWORDS or t in PUNCT:
        return t
    if t[0] in '0123456789':
        return 'number'
    if t[0] in '"\'' or (t[0] in 'rR' and len(t) > 1 and t[1] in '"\''):
        return 'string'
    return 'ident'


def gap(r, need):
    """White space, continuations and comments."""
    parts = []
    if need or r.random() < .6:
        parts.append(r.choice([' ', ' ', '  ', '\n', '\t', '\r\n', '\n\n',
                               ' \\\n', '\f', '\v', '\n    ']))
    while r.random() < .12:
        parts.append(r.choice(['# c\n', '#\n', '# "unclosed \'\n', '#!x # y\n',
                               '# a\\\n', '#\r\n', ' ', '\n']))
    return ''.join(parts)


WORD = re.compile(r'[A-Za-z0-9_]')


def lexemes(r, n):
    """-> (content str, [(kind, offset, length)])"""
    out, toks, pos = [], [], 0
    prev = None

    def emit(s):
        nonlocal pos
        out.append(s)
        pos += len(s)
    for _ in range(n):
        k = r.randrange(20)
        if k < 6: t = ident(r)
        elif k < 9: t = string(r)
        elif k < 11: t = number(r)
        elif k < 13: t = r.choice(KEYWORDS)
        elif k == 13: t = 'not' + r.choice([' ', '  ', '\n', '\t', ' \n ',
                                            '\r\n\r\n']) + 'in'
        else: t = r.choice(PUNCT)
        need = prev is not None and (
            (WORD.match(prev[-1]) and (WORD.match(t[0]) or t[0] in '"\'')) or
            (prev[0].isdigit() and (t[0] == '.' or t[0].isdigit())) or
            (prev in '<>=!' and t[0] == '=') or
            (t[0] in '"\'' and prev[-1] == t[0]) or
            (t[0] in 'rR' and prev[-1] in '0'))
        if prev is not None and kind_of(prev) == 'string' and \
           t[0] in '"\'' and prev[-1] == t[0]:
            need = True
        g = gap(r, need)
        if prev == 'not' and (t == 'in'):
            toks.pop()  # together an operator of its own
            start = pos - 3
            g = r.choice([' ', '\n', '  \t'])
            emit(g + 'in')
            toks.append(('not in', start, pos - start))
            prev = 'in'
            continue
        emit(g)
        toks.append(('not in' if t[:3] == 'not' and len(t) > 3 and
                     t[3] in ' \n\t\r' else kind_of(t), pos, len(t)))
        emit(t)
        prev = 'in' if toks[-1][0] == 'not in' else t
    emit(gap(r, False))
    if r.random() < .15:
        emit('# trailing comment without newline')
    return ''.join(out), toks


SOUP = ['"', "'", '"""', "'''", '\\', '\n', '#', 'r"', "R'", 'not', 'in',
        'not in', ' ', '\t', '\r', '0', '0x', '0o', '1.', '.', '..', '=', '==',
        '!', '!=', '<=', '>', '(', ')', '[', ']', '{', '}', ',', ':', '@', '$',
        '~', '^', '&', ';', '?', '\x00', '\x80', '\xff', 'a', 'for', 'if',
        'else', '+', '-', '*', '/', '%', '|', '\\"', '\\\n', '#\n', 'x' * 50]


def soup(r, n):
    return ''.join(r.choice(SOUP) for _ in range(n))


def mutate(r, s):
    """A few byte level edits."""
    b = list(s)
    for _ in range(r.randrange(1, 5)):
        i = r.randrange(len(b) + 1)
        k = r.randrange(5)
        if k == 0: del b[i:i + r.randrange(1, 4)]
        elif k == 1: b[i:i] = r.choice(SOUP)
        elif k == 2: del b[i:]
        elif k == 3 and i < len(b): b[i] = chr(r.randrange(256))
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.randrange(20)]
    return ''.join(b)


class Lines:
    """Reference for positions in a content (latin-1 str)."""
    def __init__(self, s):
        self.s = s
        self.starts = [0] + [i + 1 for i, c in enumerate(s) if c == '\n']

    def pos(self, off):
        import bisect
        l = bisect.bisect_right(self.starts, off) - 1
        return l, off - self.starts[l]

    def surrounding(self, a, b):
        start = self.s.rfind('\n', 0, a) + 1
        end = self.s.find('\n', b)
        return start, (len(self.s) if end < 0 else end) - start
