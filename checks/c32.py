"""C32: equivalent projects give the same results. Oracle: relations between
executions of the real commands on several forms of the same project."""
import copy, json, os, random, re
from common import *
from vlib import gen_ws
import c17

TABLES = ['list-targets', 'list-packages', 'aliased-by', 'depends-on',
          'has-dependent', 'lib-headers', 'genrule-outputs', 'workspace']
EDITS = ['dwyu', 'canonicalize', 'compile-flags', 'compilation-db']


def result(o, bant, cwd, cmd, args, data):
    """-> set of what is reported, independent of the place in the files"""
    table = cmd in TABLES
    res = run2([bant, cmd] + (['-f', 'json'] if table else []) + args,
               cwd=cwd)
    o.count(cmd)
    if res.crashed or res.timed_out or (
            res.rc != 0 and cmd not in ('dwyu', 'canonicalize')):
        o.bad('command failed', '%s %s: %d %r' % (cmd, args, res.rc,
                                                  res.err[-500:]), data)
        return None
    text = res.out.decode('latin-1').replace(cwd, 'HERE')
    if not table:
        # Numbers of exit codes tell whether there are edits.
        return res.rc, sorted(text.splitlines())
    rows = []
    for l in text.splitlines():
        row = json.loads(l)
        for k in list(row):
            if cmd == 'list-targets' and k.startswith('file'): del row[k]
            elif cmd == 'list-packages' and k.startswith('bazel-file'):
                row[k] = os.path.normpath(os.path.dirname(row[k]))
            elif isinstance(row[k], list): row[k] = sorted(row[k])
        rows.append(json.dumps(row, sort_keys=True))
    return sorted(rows)


def irrelevant(r, n):
    """Statements that concern nothing else."""
    return r.choice([
        'filegroup(name = "zz%d", srcs = ["zz.txt"])\n',
        'X_%d = ["//a:b", "c"]\n',
        'some_macro_%d("//a", ["x"])\n',
        '"""Documentation %d: cc_library(name = "zz")"""\n',
        'load("@zz%d//:defs.bzl", "some_macro", y = "z")\n',
        'exports_files(["zz%d"])\n', 'licenses(["notice%d"])\n',
        '# cc_library(name = "zz%d")\n',
        'config_setting(name = "zz%d", values = {"a": "b"})\n',
        'Y_%d = {"deps": ["//a:b"], "name": "x"}\n',
        '[some_macro(name = x) for x in UNKNOWN_%d]\n',
        'py_library(name = "zz%d", srcs = ["a.py"], testonly = True)\n',
        'other_rule(name = "zz%d", visibility = ["//visibility:private"], '
        'alwayslink = True)\n',
        'cc_library(name = "zz%d", srcs = [])\n',
        'test_suite(name = "zz%d", tests = [":a", "//b"])\n',
    ]) % n


class Form(gen_ws.Ws):
    """The same project, written in another way."""
    def __init__(self, ws, r):
        self.__dict__.update(ws.__dict__)
        self.r = r
        self.insert = 0
        self.shuffle = False
        self.crlf = False
        self.respell = False
        self.glob = False

    def package_text(self, p):
        r, defs, parts = self.r, [], []
        targets = list(p.targets)
        if self.shuffle: r.shuffle(targets)
        for t in targets:
            if self.respell:
                t = copy.copy(t)
                t.attrs = dict(t.attrs)
                if t.deps and 'deps' in t.attrs:
                    t.attrs['deps'] = [
                        r.choice(gen_ws.spellings(l, p.ctx)) for l in t.deps]
                if t.actual: t.attrs['actual'] = r.choice(
                    gen_ws.spellings(t.actual, p.ctx) or
                    [t.attrs['actual']])
            if self.glob: t = self.globbed(t)
            parts.append(self.target_text(t, defs))
        for n in range(self.insert):
            parts.insert(r.randrange(len(parts) + 1), irrelevant(r, n))
        text = p.head + ''.join(defs) + ''.join(parts)
        if self.crlf: text = text.replace('\n', '\r\n')
        return text


    def sources(self, ws):
        """Includes in another order and with other things around."""
        r = self.r
        self.files, self.ext_files = dict(ws.files), dict(ws.ext_files)
        for (ctx, path), inc in ws.contents.items():
            inc = list(inc)
            r.shuffle(inc)
            text = c17.source(r, inc, ['a/foo0.h', 'x/bar1.h'] + c17.DECOYS)
            if r.random() < .2: text = text.replace('\n', '\r\n')
            text = text.encode('latin-1')
            if ctx[0]:
                self.ext_files[self.repos[ctx[0]][0] + '/' + path] = text
            else:
                for where in ('', 'bazel-bin/', 'bazel-genfiles/'):
                    if where + path in self.files:
                        self.files[where + path] = text

    def globbed(self, t):
        """Files that are there may just as well be globbed."""
        r = self.r
        t = copy.copy(t)
        t.attrs = dict(t.attrs)
        for a in ('srcs', 'hdrs', 'textual_hdrs'):
            v = t.attrs.get(a)
            if not isinstance(v, list) or r.random() < .3: continue
            pre = t.pkg.dir if not t.pkg.project else \
                self.repos[t.pkg.project][0] + '/' + t.pkg.dir
            files = self.files if not t.pkg.project else self.ext_files
            found = [x for x in v if pre + x in files and
                     # ... and not in another package
                     not any(q.project == t.pkg.project and q is not t.pkg and
                             (t.pkg.dir + x).startswith(q.dir or '\0') and
                             q.path.startswith(t.pkg.path)
                             for q in self.packages)]
            if not found: continue
            r.shuffle(found)
            inc, exc = list(found), []
            if r.random() < .3:
                # as a pattern, which also finds others
                x = r.choice(found)
                i = r.randrange(1, len(x))
                if '/' not in x[i:] and x[i:] != '.':
                    star = x[:i] + '*'
                    here = [f[len(pre):] for f in files if f.startswith(pre)]
                    exc = [f for f in here if f not in found and
                           f.startswith(x[:i])]
                    inc[inc.index(x)] = star
            def lst(l): return self.list_text(l)
            g = 'glob(%s%s)' % (lst(inc), ', exclude = ' + lst(exc)
                                if exc else '')
            rest = [x for x in v if x not in found]
            if rest: g = r.choice(['%s + %s', '%s + %s']) % (
                (g, lst(rest)) if r.random() < .5 else (lst(rest), g))
            t.attrs[a] = gen_ws.Raw(g)
        return t


def pick(r, ws):
    """-> pattern, match of packages"""
    p = r.choice([p for p in ws.packages if not p.project])
    k = r.randrange(4)
    if k == 0 and p.targets:
        return '//%s:%s' % (p.path, r.choice(p.targets).name), p
    if k == 1: return '//%s...' % p.dir, p
    return '//%s:all' % p.path, p


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    if r.random() < .5:
        ws = c17.project(r)
    else:
        ws = gen_ws.random_graph(r, fancy=r.random() < .4)
        for p in ws.packages: p.head = ''
    if not [p for p in ws.packages if not p.project]: return o
    outs = [t.pkg.dir + x.lstrip(':') for t in ws.targets
            if t.rule == 'genrule' for x in t.attrs['outs']]
    twice = len(set(outs)) != len(outs)
    common = ['-e']
    asked = [(cmd, pat) for cmd in TABLES + EDITS
             for pat in r.sample(['//...', pick(r, ws)[0]], 1)]
    rec = r.random() < .3

    def args(cmd, pat):
        return common + (['-r'] if rec and cmd in TABLES else []) + [pat]
    base = {}
    before = ws.tree()
    with Scratch() as d:
        cwd = ws.write(d)
        for q in asked: base[q] = result(o, bant, cwd, q[0], args(*q), before)
        # The parts make up the whole.
        if r.random() < .5 and None not in base.values():
            parts(o, bant, ws, cwd, before)
        one_package(o, r, bant, ws, cwd, before)
    forms = [f for f in ('layout', 'order', 'sources', 'glob', 'build', 'unrelated', 'insert',
                         'crlf', 'respell') if r.random() < .45] or ['layout']
    for kind in forms:
        form = Form(ws, random.Random(r.random()))
        skip = set()
        name = kind
        if kind == 'order':
            form.shuffle = True
            if twice: skip.add('genrule-outputs')
        elif kind == 'build':
            form.packages = [copy.copy(p) for p in ws.packages]
            for p in form.packages:
                p.build = r.choice(['BUILD', 'BUILD.bazel'])
        elif kind == 'unrelated':
            # (That one always looks at all packages.)
            skip |= {c for c, p in asked if p == '//...'} | {'has-dependent'}
            form.packages = list(ws.packages)
            form.files = dict(ws.files)
            for n in range(r.choice([1, 3])):
                p = gen_ws.Package('', r.choice(['zz', 'zz/a', 'zzz', 'a0'])
                                   + str(n))
                form.packages.append(p)
                for k in range(r.choice([1, 3])):
                    some = r.choice(ws.targets) if ws.targets else None
                    t = form.add_target(p, r.choice(
                        ['cc_library', 'cc_binary', 'genrule', 'alias']),
                        'u%d' % k)
                    if t.rule == 'genrule': t.attrs['outs'] = ['gen%d.h' % k]
                    elif some:
                        l = gen_ws.canonical(some.label)
                        t.attrs['actual' if t.rule == 'alias' else 'deps'] = \
                            l if t.rule == 'alias' else [l]
                    if t.rule == 'cc_library':
                        t.attrs['hdrs'] = ['foo%d.h' % k]
                        t.attrs['includes'] = ['.']
        elif kind == 'insert':
            form.insert = r.choice([1, 3, 8])
            # ... which are targets themselves
            skip |= {'list-targets', 'depends-on'}
        elif kind == 'crlf':
            form.crlf = True
        elif kind == 'glob':
            form.glob = True
        elif kind == 'sources':
            if not hasattr(ws, 'contents'): continue
            form.sources(ws)
        elif kind == 'respell':
            form.respell = True
            skip |= {'dwyu', 'canonicalize'}
        o.evaluations += 1
        o.count('form_' + kind)
        with Scratch() as d:
            cwd = form.write(d)
            text = form.tree()
            for q in asked:
                if q[0] in skip or base[q] is None: continue
                data = (q, rec, before, text)
                got = result(o, bant, cwd, q[0], args(*q), data)
                if got is None: continue
                o.sigs.add(sig((seed, kind, q)))
                o.count('results', len(got) if q[0] in TABLES
                        else len(got[1]))
                if got != base[q]:
                    a, b = [set(x if q[0] in TABLES else map(str, x[1]))
                            for x in (base[q], got)]
                    o.bad('%s: other result by %s' % (q[0], name),
                          '%s %s: gone %r, new %r, %r' % (
                              q[1], rec, sorted(a - b)[:5], sorted(b - a)[:5],
                              '' if q[0] in TABLES else
                              (base[q][0], got[0])), data)
    o.sample(asked[0])
    return o


def parts(o, bant, ws, cwd, data):
    """The result of a pattern is that of all its packages together."""
    o.count('relation_parts')
    for cmd in ('list-targets', 'list-packages', 'genrule-outputs',
                'lib-headers', 'depends-on', 'canonicalize'):
        whole = result(o, bant, cwd, cmd, ['-e', '//...'], data)
        got = [result(o, bant, cwd, cmd, ['-e', '//%s:all' % p.path], data)
               for p in ws.packages if not p.project]
        if whole is None or None in got: continue
        if cmd == 'canonicalize':
            whole = whole[1]
            got = [x[1] for x in got]
        if cmd == 'lib-headers':
            # with the libraries of all of them
            def table(rows):
                out = set()
                for x in rows:
                    x = json.loads(x)
                    v = x['providing-rule']
                    out |= {(x['header'], l)
                            for l in (v if isinstance(v, list) else [v])}
                return out
            # Aliases in other packages are only known there.
            known = {gen_ws.canonical(t.label) for t in ws.targets
                     if t.rule == 'alias'}
            a = {x for x in table(whole) if x[1] not in known}
            b = {x for l in got for x in table(l) if x[1] not in known}
        elif cmd == 'genrule-outputs':
            a = {json.loads(x)['generated-file'] for x in whole}
            b = {json.loads(x)['generated-file'] for l in got for x in l}
        else:
            a, b = sorted(whole), sorted(x for l in got for x in l)
        if a != b:
            o.bad(cmd + ': the parts are not the whole', '%r, %r' % (
                [x for x in a if x not in b][:5],
                [x for x in b if x not in a][:5]), (cmd, data))


def one_package(o, r, bant, ws, cwd, data):
    """... and that of a package the one of all its targets."""
    l = [p for p in ws.packages if not p.project and p.targets]
    if not l: return
    p = r.choice(l)
    o.count('relation_targets')
    for cmd in ('list-targets', 'depends-on', 'canonicalize'):
        whole = result(o, bant, cwd, cmd, ['-e', '//%s:all' % p.path], data)
        got = [result(o, bant, cwd, cmd,
                      ['-e', '//%s:%s' % (p.path, t.name)], data)
               for t in p.targets]
        if whole is None or None in got: continue
        if cmd == 'canonicalize':
            whole = whole[1]
            got = [x[1] for x in got]
        if sorted(whole) != sorted(x for g in got for x in g):
            o.bad(cmd + ': the targets are not the package', '%r, %r' % (
                whole[:5], got[:5]), (cmd, p.path, data))


def main():
    c = Check('C32', 'Random projects (libraries, sources, aliases, protos, '
              'external ones, dependency cycles), each with all commands in '
              'several equivalent forms. Distinct: by project, form and '
              'command.',
              min_evaluations=800, min_distinct=5000,
              assumptions=['Order of results is not compared'])
    bant = built(build.bant, 'plain')
    c.pool(case, [(bant, s) for s in c.seeds(c.n(400, 12000))])
    c.finish()


main()
