"""C16: which target provides which header or generated file: commands on
generated projects, and lookup by path."""
import json, os, random
from common import *
from vlib import gen_ws
from vlib.gen_ws import canonical, spellings
from vlib.headers import common_elements, provided, unique

STEMS = ['foo', 'bar', 'baz', 'q', 'foo_bar', 'x']
DIRS = ['', '', '', 'sub/', 'include/', 'include/pub/', 'a/', 'lib/', 'inc/a/']


def header_name(r, ext='.h'):
    return r.choice(DIRS) + r.choice(STEMS) + str(r.choice(['', 1, 2])) + ext


def project(r, fancy):
    ws = gen_ws.Ws(r, fancy=fancy)
    if r.random() < .25:
        # There is one library in which a header is only there for backward
        # compatibility, which is one both in hdrs and textual_hdrs.
        for _ in range(r.choice([1, 2])):
            c = (r.choice(['', '', '@com_google_absl']), r.choice(
                ['absl/strings', 'absl/strings', 'x/absl/strings', 'strings',
                 'absl/strings/x', 'absl/stringsx', 'absl']))
            if c[0] and c[0] not in ws.repos: c = ('', c[1])
            if not ws.package(*c):
                p = ws.add_package(*c)
                lib(r, ws, p, ws.fresh_name(p))
    for _ in range(r.choice([2, 6, 15, 25])):
        p = r.choice(ws.packages)
        k = r.randrange(12)
        name = ws.fresh_name(p)
        if k < 7:
            lib(r, ws, p, name)
        elif k == 7:
            n = r.choice([1, 2, 3])
            ws.add_target(p, 'genrule', name, outs=unique(
                header_name(r, r.choice(['.h', '.cc', '.txt']))
                for _ in range(n)), cmd='x')
        elif k == 8: proto(r, ws, p, name)
        else:
            t = r.choice(ws.targets) if ws.targets else None
            if t:
                a = ws.add_target(p, 'alias', name)
                # of something above: no cycles
                l = t.label
                sp = spellings(l, p.ctx)
                if sp:
                    a.actual = l
                    a.attrs['actual'] = r.choice(sp)
                else: p.targets.remove(a)
        if r.random() < .1:
            p = r.choice(ws.packages)
            ws.add_target(p, r.choice(['cc_binary', 'cc_test', 'my_library',
                                       'filegroup']), ws.fresh_name(p),
                          srcs=[header_name(r)], hdrs=[header_name(r)])
    return ws


def lib(r, ws, p, name):
    attrs = {}
    for a, c in (('hdrs', .9), ('textual_hdrs', .2), ('srcs', .3)):
        if r.random() < c:
            attrs[a] = unique(r.choice(['', '', '', ':']) + header_name(
                r, r.choice(['.h', '.h', '.hpp', '.inc']))
                for _ in range(r.choice([0, 1, 2, 4])))
    if 'str' in p.path or 'absl' in p.path:
        for a in ('hdrs', 'textual_hdrs'):
            if r.random() < .6: attrs.setdefault(a, []).append('string_view.h')
    rule = 'cc_library'
    if r.random() < .1:
        rule = 'grpc_cc_library'
        attrs['public_hdrs'] = [header_name(r)]
    dirs = ['include', 'sub', 'include/', 'a', '.', 'lib', 'inc', 'inc/a',
            './sub', 'include/pub', p.path or 'x', (p.path or 'x') + '/sub',
            'nowhere']
    if r.random() < .15:
        attrs['include_prefix'] = r.choice(['yolo', 'a/b', '.', './', 'x/',
                                            'lib', './z'])
    if r.random() < .2:
        attrs['strip_include_prefix'] = r.choice(
            dirs + ['/' + x for x in dirs])
    if 'include_prefix' not in attrs and r.random() < .2:
        attrs['includes'] = r.sample(dirs, r.choice([1, 1, 2]))
    ws.add_target(p, rule, name, **attrs)


def proto(r, ws, p, name):
    srcs = unique(r.choice(['', ':']) + r.choice(STEMS) + str(
        r.choice(['', '', 1, 2, '.v1', '.proto', '-x', '/sub.d/y'])) + '.proto' for _ in range(r.choice([1, 1, 2])))
    if r.random() < .2: srcs.append('//x:other_protos')
    lib = ws.add_target(p, 'proto_library', name, srcs=srcs)
    for rule, attr, chance in (('cc_proto_library', 'deps', .9),
                               ('cc_grpc_library', 'srcs', .3)):
        if r.random() < chance:
            t = ws.add_target(p, rule, ws.fresh_name(p))
            t.attrs[attr] = [r.choice(spellings(lib.label, p.ctx))]
            t.proto = (lib, rule)
            if r.random() < .5: p.targets.insert(0, p.targets.pop())


def below(base, p):
    return base == '' or p == base or p.startswith(base + '/')


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    fancy = r.random() < .3
    ws = project(r, fancy)
    if not ws.targets: return o
    with Scratch() as d:
        cwd = ws.write(d)
        data = ws.tree()
        todo = [('', '')] + [t.pkg.ctx for t in r.sample(
            ws.targets, min(2, len(ws.targets)))]
        for proj, path in todo:
            if r.random() < .4 and (proj, path) != ('', ''):
                t = r.choice([t for t in ws.targets
                              if t.pkg.ctx == (proj, path)])
                text = '%s//%s:%s' % t.label
                match = lambda l: l == t.label
                loaded = {(proj, path)}
            else:
                text = proj + '//' + (path + '/' if path else '') + '...'
                match = lambda l: l[0] == proj and below(path, l[1])
                loaded = {p.ctx for p in ws.packages if match(p.ctx)}
            args = ['-e'] if fancy else []
            for cmd in ('lib-headers', 'genrule-outputs'):
                res = run2([bant, cmd, '-f', 'json'] + args + [text], cwd=cwd)
                o.evaluations += 1
                o.sigs.add(sig((seed, text, cmd)))
                if res.crashed or res.timed_out or res.rc != 0:
                    o.bad('command failed', '%s %s %r' % (
                        cmd, text, res.err[-400:]), data)
                    continue
                rows = [json.loads(l) for l in res.out.decode().splitlines()]
                got, want = {}, {}
                if cmd == 'lib-headers':
                    for row in rows:
                        if row['header'] in got:
                            o.bad('header twice', row['header'], data)
                        v = row['providing-rule']
                        got[row['header']] = sorted(
                            v if isinstance(v, list) else [v])
                    for p, l in provided(ws, loaded).items():
                        l = sorted(canonical(x) for x in l if match(x))
                        if l: want[p] = l
                    got = {k: v for k, v in got.items() if v}
                    o.count('headers', len(want))
                    o.count('several_providers',
                            sum(len(v) > 1 for v in want.values()))
                else:
                    for row in rows:
                        got.setdefault(row['generated-file'], []).append(
                            row['providing-rule'])
                    for t_ in ws.targets:
                        if t_.rule == 'genrule' and t_.pkg.ctx in loaded:
                            for f in t_.attrs['outs']:
                                want.setdefault(t_.pkg.dir + f, []).append(
                                    (canonical(t_.label), match(t_.label)))
                    # Only one can generate a file. If there are more, any.
                    for f in [f for f, l in want.items() if len(l) > 1]:
                        l = want.pop(f)
                        if any(g not in [x[0] for x in l]
                               for g in got.pop(f, [])):
                            o.bad('generated file of someone else', f, data)
                    want = {f: [l[0][0]] for f, l in want.items() if l[0][1]}
                    o.count('generated', len(want))
                for k in sorted(set(got) | set(want)):
                    if got.get(k) != want.get(k):
                        o.bad(cmd + (': missing' if k not in got else
                                     ': additional' if k not in want else
                                     ': other providers'),
                              '%s: %s is provided by %r, expected %r' % (
                                  text, k, got.get(k), want.get(k)), data)
                        break
    o.sample(text)
    return o


def lookup_batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases = []
    elems = ['a', 'b', 'ab', 'ba', 'foo', 'oo', 'foo.h', 'bar.h', 'h', 'o.h',
             'xfoo.h', 'a.h', 'A', '_', 'z']
    for _ in range(n):
        el = r.sample(elems, r.choice([2, 4, 8]))

        def path():
            return '/'.join(r.choice(el)
                            for _ in range(r.choice([1, 2, 2, 3, 4, 6])))
        libs = {}
        for i in range(r.choice([0, 1, 2, 5, 12])):
            libs['l%d' % i] = unique(path() for _ in range(r.choice([1, 3])))
        text = ''.join('cc_library(name = "%s", hdrs = [%s])\n' % (
            n, ', '.join('"%s"' % h for h in l)) for n, l in libs.items())
        index = {}
        for n_, l in libs.items():
            for h in l: index.setdefault(h, set()).add('//:' + n_)
        q = []
        for _ in range(8):
            p = path()
            if index and r.random() < .6:
                p = r.choice(sorted(index))
                k = r.randrange(5)
                if k == 0: p = path() + '/' + p
                elif k == 1 and '/' in p: p = p.split('/', 1)[1]
                elif k == 2: p = r.choice(el) + p
                elif k == 3: p = p[1:] or 'a'
            q.append((p, r.choice([1, 2, 2, 3, 5])))
        cases.append((text, index, q))
    for (text, index, q), a in zip(cases, core.probe_batch(
            binary, 'suffix',
            [['//', c[0]] + [x if isinstance(x, str) else str(x)
                             for y in c[2] for x in y] for c in cases])):
        if isinstance(a, dict):
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), text)
            continue
        for (p, least), g in zip(q, a):
            o.evaluations += 1
            o.sigs.add(sig((sorted(index), p, least)))
            best = max((common_elements(p, h) for h in index), default=0)
            err = None
            if p in index:
                o.count('exact')
                if g is None or g[0] != p or g[1] != 0:
                    err = 'exact entry not found'
            elif best < least:
                o.count('none')
                if g is not None: err = 'not enough in common'
            else:
                o.count('by_suffix')
                if g is None: err = 'not found'
                elif g[0] not in index: err = 'not an entry'
                elif common_elements(p, g[0]) != best: err = 'not the longest'
                elif g[1] != best: err = 'wrong score'
            if err is None and g is not None and set(g[2]) != index[g[0]]:
                err = 'other targets'
            if err:
                o.bad('lookup: ' + err, '%r at least %d in %r: %r' % (
                    p, least, sorted(index), g), (text, p, least))
                break
    return o


def main():
    c = Check('C16', 'Random projects with libraries using include '
              'directories, prefixes and aliases, protos and genrules; random '
              'indexes and paths near their entries for the lookup. Distinct: '
              'project and command, index and path.',
              min_evaluations=5000, min_distinct=4000,
              assumptions=['No alias cycles; a proto_library is used by at '
                           'most one cc_proto_library, in the same package; '
                           'include_prefix not together with includes'])
    binary = built(build.probe, 'fe')
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(300, 8000))])
    c.pool(lookup_batch, [(binary, s, c.n(100, 400))
                          for s in c.seeds(c.n(32, 500), 'lookup')])
    c.finish()


main()
