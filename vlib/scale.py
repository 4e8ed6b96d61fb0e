"""BUILD contents that grow with n, in width and in depth."""

DEEP = {
    'paren': lambda n: 'x = ' + '(' * n + '1' + ')' * n,
    'square': lambda n: 'x = ' + '[' * n + ']' * n,
    'rule': lambda n: 'cc_library(name = "a", srcs = ' + '[' * n + ']' * n + ')',
    'unclosed': lambda n: 'x = ' + '[' * n,
    'tuple': lambda n: 'x = ' + '(1,' * n + ')' * n,
    'map': lambda n: 'x = ' + '{1:' * n + '1' + '}' * n,
    'plus': lambda n: 'x = ' + '"a"+' * n + '"a"',
    'pluslist': lambda n: 'x = ' + '["a"]+' * n + '["a"]',
    'neg': lambda n: 'x = ' + '- ' * n + '1',
    'not': lambda n: 'x = ' + 'not ' * n + '1',
    'suffix': lambda n: 'x = a' + '[0]' * n,
    'insuffix': lambda n: 'x = ' + 'a[' * n + '0' + ']' * n,
    'slice': lambda n: 'x = ' + 'a[1:' * n + '0' + ']' * n,
    'mixed': lambda n: 'x = ' + '(' * 50 + 'a' + ('[0]' * (n // 50) + ')') * 50,
    'call': lambda n: 'x = ' + 'f(' * n + ')' * n,
    'topcall': lambda n: 'f(' * n + ')' * n,
    'kwarg': lambda n: 'cc_library(name = ' + 'f(name=' * n + '0' + ')' * n + ')',
    'for': lambda n: 'x = [a ' + 'for a in b ' * n + ']',
    'topfor': lambda n: '[f(a) ' + 'for a in b ' * n + ']',
    'nestfor': lambda n: 'x = ' + '[a for a in ' * n + 'b' + ']' * n,
    'else': lambda n: 'x = ' + 'a if b else ' * n + 'c',
    'if': lambda n: 'x = a ' + ' if b ' * n + 'c',
    'dot': lambda n: 'x = ' + 'a.' * n + 'a',
    'format': lambda n: 'x = ' + '"{}".format(' * n + '1' + ')' * n,
    'percent': lambda n: 'x = ' + '"%s" % ' * n + '1',
    'select': lambda n: 'x = ' + 'select({"//conditions:default":' * n + '1' + '})' * n,
    'glob': lambda n: 'x = ' + 'glob(' * n + ')' * n,
}


def _j(fmt, n):
    return ',\n'.join(fmt.replace('%d', str(i)) for i in range(n))


WIDE = {
    'stmts': lambda n: 'x = 1\n' * n,
    'vars': lambda n: ''.join('v%d = "a" + "b"\n' % i for i in range(n)),
    'chain': lambda n: 'v0 = "a"\n' + ''.join(
        'v%d = v%d\n' % (i + 1, i) for i in range(n)),
    'rules': lambda n: ''.join(
        'cc_library(name="l%d", srcs=["a%d.cc"], deps=[":l%d"])\n' % (
            i, i, i // 2) for i in range(n)),
    'srcs': lambda n: 'cc_library(name="l", srcs=[%s])\n' % _j('"a%d.cc"', n),
    'deps': lambda n: 'cc_library(name="l", deps=[%s])\n' % _j('":a%d"', n),
    'hdrs': lambda n: 'cc_library(name="l", hdrs=[%s], includes=["x"])\n' %
                      _j('"a%d.h"', n),
    'dupdeps': lambda n: 'cc_library(name="l", deps=[%s])\n' % _j('":a"', n),
    'includes': lambda n: 'cc_library(name="l", hdrs=["a.h"], includes=[%s])'
                          % _j('"i%d"', n),
    'attrs': lambda n: 'cc_library(name="l", %s)\n' % _j('x=1', n),
    'lists': lambda n: 'x = [' + '["a"]+["b"],\n' * n + ']',
    'concat': lambda n: 'x = [' + '"a"+"b",\n' * n + ']',
    'formats': lambda n: 'x = [' + '"{}".format("b"),\n' * n + ']',
    'comments': lambda n: '# foo\n' * n,
    'spaces': lambda n: ' ' * n * 10,
    'newlines': lambda n: '\n' * n * 10,
    'string': lambda n: 'x = "' + 'a' * n * 10 + '"',
    'escapes': lambda n: 'x = "' + '\\"' * n * 10 + '"',
    'identifier': lambda n: 'x' * n * 10,
    'triple': lambda n: 'x = """' + 'a\n' * n * 10 + '"""',
    'unterminated': lambda n: '"a\n' * n,
    'unterminated3': lambda n: 'x = """' * n,
    'raws': lambda n: 'r' * n * 10 + '"',
    'nots': lambda n: 'x = [' + 'a not in b,\n' * n,
    'errors': lambda n: ') ' * n,
    'continuation': lambda n: '\\\n' * n,
    'select': lambda n: 'cc_library(name="a", deps=select({%s}))' %
                        _j('":c%d":[":x"]', n),
    'for': lambda n: 'x = [a for a in [%s]]' % _j('"%d"', n),
    'samename': lambda n: 'cc_library(name="l")\n' * n,
    'aliases': lambda n: ''.join('alias(name="a%d", actual=":a%d")\n' % (
        i, i + 1) for i in range(n)),
    'genrules': lambda n: ''.join('genrule(name="g%d", outs=["o%d.h"])\n' % (
        i, i) for i in range(n)),
    'samehdr': lambda n: ''.join(
        'cc_library(name="l%d", hdrs=["a.h"])\n' % i for i in range(n)),
    'samedep': lambda n: ''.join(
        'cc_library(name="l%d", deps=[":z"])\n' % i for i in range(n)),
    'protos': lambda n: ''.join(
        'proto_library(name="p%d", srcs=["p%d.proto"])\n'
        'cc_proto_library(name="c%d", deps=[":p%d"])\n' % (i, i, i, i)
        for i in range(n)),
}
