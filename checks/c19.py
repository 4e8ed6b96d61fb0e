"""C19: the same table in all formats, parsed back by independent decoders."""
import csv, io, json, random, re
from common import *

CHARS = [' ', '"', "'", ',', ';', '\\', '\t', '\n', '\r', '\x00', '\x01',
         '\x1f', '\x7f', '\x80', '\xc3', '\xa9', '\xff', '(', ')', ':', '{',
         '}', '[', ']', '%', '%s', '%d', '0', '7', 'a', 'f', '\\n', '\\x41',
         '\\"', '\\u0041', '//foo:bar', '""', '\r\n', 'é', 'x' * 50, '@', '$']


def cell(r, tame):
    k = r.randrange(6)
    if k == 0: return ''
    if k == 1 or tame: return '//' + r.choice(['foo', 'b/ar', 'x']) + ':' + \
        r.choice(['a', 'b.h', 'long_name' * r.randrange(1, 8)])
    return ''.join(r.choice(CHARS) for _ in range(r.choice([1, 2, 5, 30])))


def denormalize(rows):
    out = []
    for kind, pre, rep in rows:
        if kind == 'r': out.append(pre)
        else: out += [pre + [x] for x in rep]
    return out


# -- Decoders, independent of the code
def read_json(text):
    out = []
    assert text == '' or text.endswith('\n')
    for ln in text.split('\n')[:-1]:
        # Bytes that are not ASCII come as they are; here as latin-1.
        out.append(json.loads(ln, object_pairs_hook=list))
    return out


def read_csv(text):
    """RFC 4180 with quoted cells."""
    rows, i = [], 0
    while i < len(text):
        row = []
        while True:
            assert text[i] == '"', (i, text[i:i + 20])
            j, val = i + 1, ''
            while True:
                k = text.index('"', j)
                val += text[j:k]
                if text[k + 1:k + 2] == '"':
                    val += '"'
                    j = k + 2
                    continue
                break
            row.append(val)
            i = k + 1
            if text[i] == ',':
                i += 1
                continue
            assert text[i] == '\n', (i, text[i:i + 20])
            i += 1
            break
        rows.append(row)
    return rows


ESC = {'n': '\n', 'r': '\r', 't': '\t', '"': '"', "'": "'", '\\': '\\'}


def read_sexpr(text):
    """-> nested lists; keywords as (':', name)."""
    pos = 0
    stack = [[]]
    while pos < len(text):
        c = text[pos]
        if c in ' \n':
            pos += 1
        elif c == '(':
            stack.append([])
            pos += 1
        elif c == ')':
            done = stack.pop()
            stack[-1].append(done)
            pos += 1
        elif c == ':':
            m = re.compile(r':([\w-]+)').match(text, pos)
            stack[-1].append((':', m[1]))
            pos = m.end()
        elif c == '"':
            pos += 1
            val = ''
            while text[pos] != '"':
                if text[pos] != '\\':
                    assert ' ' <= text[pos] <= '~', 'raw control character'
                    val += text[pos]
                    pos += 1
                elif text[pos + 1] in ESC:
                    val += ESC[text[pos + 1]]
                    pos += 2
                else:
                    m = re.compile(r'\\([0-7]{3})').match(text, pos)
                    assert m, text[pos:pos + 6]
                    val += chr(int(m[1], 8))
                    pos = m.end()
            stack[-1].append(val)
            pos += 1
        else:
            raise AssertionError('unexpected %r' % c)
    assert len(stack) == 1 and len(stack[0]) == 1, 'unbalanced'
    return stack[0][0]


def judge(o, headers, rows, outs, data):
    native, sexpr, plist, js, cs = outs
    flat = denormalize(rows)
    n = len(headers)
    o.evaluations += 5
    o.count('rows', len(rows))
    o.count('cells', sum(map(len, flat)))
    structured = [pre if kind == 'r' else pre + [rep]
                  for kind, pre, rep in rows]
    try:
        got = read_json(js)
        want = [list(zip(headers, s)) for s in structured]
        if [[tuple(x) for x in g] for g in got] != want:
            o.bad('JSON differs', '%r' % js[:300], data)
    except (ValueError, AssertionError) as e:
        o.bad('JSON not well-formed', '%s %r' % (e, js[:300]), data)
    try:
        got = read_csv(cs)
        if got != [headers] + flat:
            o.bad('CSV differs', '%r' % cs[:300], data)
    except (ValueError, IndexError, AssertionError) as e:
        o.bad('CSV not well-formed', '%s %r' % (e, cs[:300]), data)
    try:
        got = read_sexpr(sexpr)
        if got != structured:
            o.bad('s-expr differs', '%r' % sexpr[:300], data)
    except (ValueError, IndexError, AssertionError) as e:
        o.bad('s-expr not well-formed', '%s %r' % (e, sexpr[:300]), data)
    try:
        got = read_sexpr(plist)
        want = [[x for h, v in zip(headers, s) for x in ((':', h), v)]
                for s in structured]
        if got != want:
            o.bad('plist differs', '%r' % plist[:300], data)
    except (ValueError, IndexError, AssertionError) as e:
        o.bad('plist not well-formed', '%s %r' % (e, plist[:300]), data)
    # Aligned: each cell verbatim, starting at the same column in all rows.
    pos = 0
    width = [max([len(f[i]) for f in flat], default=0) for i in range(n)]
    starts = None
    for f in flat:
        at, st = pos, []
        for i, v in enumerate(f):
            st.append(at - pos)
            if native[at:at + len(v)] != v:
                o.bad('aligned: cell content', '%r in %r' % (
                    v, native[pos:pos + 300]), data)
                return
            at += len(v)
            if i == n - 1:
                while native[at:at + 1] == ' ': at += 1
                break
            # at least one blank, up to where the longest ends
            pad = 0
            while len(f[i]) + pad <= width[i] or pad == 0:
                if native[at:at + 1] != ' ':
                    o.bad('aligned: columns', '%r' % native[pos:pos + 300],
                          data)
                    return
                at += 1
                pad += 1
        if native[at:at + 1] != '\n':
            o.bad('aligned: row end', '%r' % native[pos:pos + 300], data)
            return
        if starts is not None and starts != st:
            o.bad('aligned: columns', '%r' % native[pos:pos + 300], data)
            return
        starts = st
        pos = at + 1
    if pos != len(native):
        o.bad('aligned: more than the rows', repr(native[pos:pos + 300]), data)


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases, recs = [], []
    for _ in range(n):
        cols = r.choice([1, 2, 2, 3, 3, 5])
        headers = r.sample(['file', 'target', 'rule', 'library', 'depends-on',
                            'x', 'bazel-file'], cols)
        tame = r.random() < .3
        repeated = r.random() < .5
        rows, rec = [], [str(cols)] + headers
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            if repeated and r.random() < .9:
                pre = [cell(r, tame) for _ in range(cols - 1)]
                rep = [cell(r, tame) for _ in range(r.choice([0, 1, 1, 2, 5]))]
                rows.append(('l', pre, rep))
                rec += ['l'] + pre + [str(len(rep))] + rep
            else:
                row = [cell(r, tame) for _ in range(cols)]
                rows.append(('r', row, None))
                rec += ['r'] + row
        cases.append((headers, rows))
        recs.append([x.encode('latin-1') for x in rec])
    for (headers, rows), a in zip(cases,
                                  core.probe_batch(binary, 'tables', recs)):
        if isinstance(a, dict):
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''),
                  (headers, rows))
            continue
        if rows: o.sigs.add(sig((headers, rows)))
        judge(o, headers, rows, a, (headers, rows))
    o.sample(repr(cases[0])[:200])
    return o


HEAD = {'list-targets': ['file-location', 'rule', 'target'],
        'list-packages': ['bazel-file', 'package'],
        'lib-headers': ['header', 'providing-rule'],
        'genrule-outputs': ['generated-file', 'providing-rule'],
        'aliased-by': ['actual', 'aliased-by'],
        'depends-on': ['library', 'depends-on'],
        'has-dependents': ['library', 'has-dependent'],
        'workspace': ['project', 'version', 'directory']}
REPEATED = ('aliased-by', 'depends-on', 'has-dependents')


def command_case(bant, seed):
    """The commands: rows are taken from the JSON; all else must agree."""
    o = Out()
    r = random.Random(seed)
    names = ['a', 'b.h', 'c,d', "q'r", 'e"f', 'x y', 'f\xe9', 'g\\\\h',
             'p%s', 'i;j', 'k=l', 'long_name_that_is_longer', 't|u']
    text = ''
    dirs = ['', 'foo', 'foo/b ar', 'c,x', "q'", 'd"e', '\xe9t\xe9']
    files = {'MODULE.bazel': 'bazel_dep(name = "x,y", version = "1.\\"0")\n'
             'bazel_dep(name = "z", version = "2")\n'}
    for d in r.sample(dirs, r.choice([1, 3, len(dirs)])):
        text = ''
        ns = r.sample(names, r.choice([2, 5, 9]))
        for n in ns:
            q = '"%s"' % n.replace('"', '\\"')
            kind = r.randrange(4)
            if kind < 2:
                text += 'cc_library(name=%s, hdrs=[%s], deps=[%s])\n' % (
                    q, q, ', '.join('":%s"' % x.replace('"', '\\"') for x in
                                    r.sample(ns, r.choice([0, 1, 2]))))
            elif kind == 2:
                text += 'alias(name=%s, actual=":%s")\n' % (
                    q, r.choice(ns).replace('"', '\\"'))
            else:
                text += 'genrule(name=%s, outs=[%s, "o.cc"])\n' % (q, q)
        files[(d + '/' if d else '') + 'BUILD'] = text
    cmd = r.choice(list(HEAD))
    headers = HEAD[cmd]
    outs = {}
    with Scratch() as d:
        write_tree(d, files)
        for f in ('native', 's-expr', 'plist', 'json', 'csv'):
            short = f if r.random() < .5 else f[:r.choice([1, 2, 3])]
            res = run2([bant, cmd, '-f', short], cwd=d)
            if res.crashed or res.timed_out or res.rc != 0:
                o.bad('command failed', '%r %d %r' % (
                    cmd, res.rc, res.err[-300:]), files)
                return o
            outs[f] = res.out.decode('latin-1')
    try:
        objs = read_json(outs['json'])
    except ValueError as e:
        o.bad('JSON not well-formed', '%s %r' % (e, outs['json'][:300]), files)
        return o
    rows = []
    for ob in objs:
        if len(ob) != len(headers):
            o.bad('number of columns', repr(ob), files)
            return o
        vals = [v for _, v in ob]
        headers = [k for k, _ in ob]
        if isinstance(vals[-1], list):
            rows.append(('l', vals[:-1], vals[-1]))
        else:
            rows.append(('r', vals, None))
    if not rows:    # no header to be learned from JSON
        try:
            headers = read_csv(outs['csv'])[0]
        except (ValueError, IndexError, AssertionError) as e:
            o.bad('CSV not well-formed', repr(outs['csv']), files)
            return o
    # These names are what machine readable formats are accessed with.
    if headers != HEAD[cmd]:
        o.bad('columns', '%s: %r instead of %r' % (cmd, headers, HEAD[cmd]),
              files)
        return o
    if cmd in REPEATED and any(k == 'r' for k, _, _ in rows):
        o.bad('column not repeated', outs['json'][:300], files)
    o.count('cmd ' + cmd)
    if rows: o.sigs.add(sig((cmd, rows)))
    judge(o, headers, rows, [outs[f] for f in (
        'native', 's-expr', 'plist', 'json', 'csv')], (cmd, files))
    return o


def main():
    c = Check('C19', 'Random tables with any bytes in cells, also with '
              'repeated last column, and the tables of commands on projects '
              'with odd names; decoded from all formats. Distinct: by content.',
              min_evaluations=10000, min_distinct=2000,
              assumptions=['JSON: bytes outside ASCII are passed through'])
    binary = built(build.probe, 'util')
    bant = built(build.bant)
    c.pool(batch, [(binary, s, c.n(100, 400)) for s in c.seeds(c.n(48, 1500))])
    c.pool(command_case, [(bant, s)
                          for s in c.seeds(c.n(250, 5000), 'cmd')])
    c.finish()


main()
