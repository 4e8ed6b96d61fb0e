"""C15: the reported dependencies, dependents and aliases of generated projects
against the relation that was generated."""
import json, random
from common import *
from vlib import gen_ws
from vlib.gen_ws import canonical


def below(base, p):
    return base == '' or p == base or p.startswith(base + '/')


def pattern(r, ws):
    """-> (text, matches a label, package is looked at)"""
    t = r.choice(ws.targets)
    proj, path, name = t.label
    k = r.randrange(6)
    if k < 2:
        return (proj + '//' + (path + '/' if path else '') + '...',
                lambda u: u[0] == proj and below(path, u[1]))
    if k == 2:
        top = path.split('/')[0]
        return (proj + '//' + (top + '/' if top else '') + '...',
                lambda u: u[0] == proj and below(top, u[1]))
    if k == 3:
        return (proj + '//' + path + r.choice([':all', ':*', ':__pkg__']),
                lambda u: u[:2] == (proj, path))
    return proj + '//' + path + ':' + name, lambda u: u == t.label


def reach(ws, match, depth):
    """Targets within the depth -> level, following declared dependencies."""
    by = {t.label: t for t in ws.targets}
    level = {l: 0 for l in by if match(l)}
    todo = list(level)
    for d in range(1, depth + 1):
        nxt = []
        for l in todo:
            for x in gen_ws.all_deps(by[l]):
                if x in by and x not in level:
                    level[x] = d
                    nxt.append(x)
        if not nxt: break
        todo = nxt
    return by, level


def rows(out):
    return [json.loads(l) for l in out.decode('latin-1').splitlines()]


def relation(got, first, second, o, what, data):
    res = {}
    for row in got:
        if row[first] in res:
            o.bad(what + ': row twice', row[first], data)
        v = row[second] if isinstance(row[second], list) else [row[second]]
        if len(set(v)) != len(v):
            o.bad(what + ': relation twice', repr(row), data)
        res[row[first]] = sorted(v)
    return res


def compare(o, what, got, want, data):
    if got == want: return
    for k in sorted(set(got) | set(want)):
        g, w = got.get(k), want.get(k)
        if g != w:
            o.bad(what + (': row missing' if g is None else ': additional row'
                          if w is None else ': differs'),
                  '%s: %r, expected %r (%s)' % (k, g, w, data[0]), data)
            return


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    fancy = r.random() < .4
    ws = gen_ws.random_graph(r, fancy=fancy)
    if r.random() < .3:             # BUILD is not looked at then
        for p in ws.packages:
            if r.random() < .5: p.build = 'BUILD.bazel'
            p.shadowed = ''.join(
                'cc_library(name = "%s", deps = [":nowhere", "//%s"])\n' % (
                    n, r.choice(['shadow', 'a/b'])) for n in
                ['shadowed'] + [t.name for t in p.targets[:2]
                                if t.name.isalnum()])
    with Scratch() as d:
        cwd = ws.write(d)
        files = ws.tree()

        def run(cmd, text, args):
            line = [bant, cmd, '-f', 'json'] + args + \
                (['-e'] if fancy else []) + ([text] if text else [])
            if r.random() < .5:     # options are accepted anywhere
                line = [bant] + line[2:-1] + [cmd] + line[-1:] if text else line
            res = run2(line, cwd=cwd)
            o.evaluations += 1
            if res.crashed or res.timed_out or res.rc != 0:
                o.bad('command failed', '%s %s: %d %r' % (
                    cmd, text, res.rc, res.err[-400:]), files)
                return None
            return rows(res.out)

        for _ in range(3):
            text, match = pattern(r, ws)
            depth, args = r.choice([(0, []), (0, ['-r0']), (1, ['-r1']),
                                    (2, ['-r2']), (3, ['-r3']),
                                    (10**6, ['-r']), (10**6, ['-r'])])
            by, level = reach(ws, match, depth)
            data = ('%s %s' % (text, args), files)
            o.sigs.add(sig((seed, text, depth)))
            # -- dependencies
            want = {}
            for l in level:
                if depth == 0 and not match(l): continue
                deps = gen_ws.all_deps(by[l])
                if deps: want[canonical(l)] = sorted(map(canonical, deps))
            got = run('depends-on', text, args)
            if got is not None:
                o.count('max_level', max(level.values(), default=0))
                o.count('dependencies', sum(map(len, want.values())))
                g = {k: v for k, v in relation(
                    got, 'library', 'depends-on', o, 'depends-on',
                    data).items() if v}
                compare(o, 'depends-on', g, want, data)
            # -- packages that had to be loaded
            pk = {p.ctx for p in ws.packages if match(p.ctx + ('*all*',))} \
                if text.endswith(('...', ':all', ':*', ':__pkg__')) else \
                {l[:2] for l in by if match(l)}
            pk |= {l[:2] for l in level}
            there = {p.ctx for p in ws.packages}
            # also those looked through in vain for a target
            pk |= {x[:2] for l, v in level.items() if v < depth
                   for x in gen_ws.all_deps(by[l]) if x[:2] in there}
            got = run('list-packages', text, args)
            if got is not None:
                o.count('packages', len(pk))
                g = sorted(x['package'] for x in got)
                if g != sorted(a + '//' + b for a, b in pk):
                    o.bad('list-packages differs', '%s: %r instead of %r' % (
                        data[0], g, sorted(pk)), data)
                # -- and what they are aliased by
                want = {}
                for l, t in by.items():
                    if t.actual and l[:2] in pk and \
                       (depth > 0 or match(t.actual)):
                        want.setdefault(canonical(t.actual), []).append(
                            canonical(l))
                want = {k: sorted(v) for k, v in want.items()}
                got = run('aliased-by', text, args)
                if got is not None:
                    o.count('aliases', sum(map(len, want.values())))
                    compare(o, 'aliased-by', relation(
                        got, 'actual', 'aliased-by', o, 'aliased-by', data),
                        want, data)
            # -- the inverse: everything reachable from the main project
            by, level = reach(ws, lambda l: l[0] == '', 10**6)
            want = {}
            for l in level:
                for x in gen_ws.all_deps(by[l]):
                    if match(x):
                        want.setdefault(canonical(x), []).append(canonical(l))
            want = {k: sorted(v) for k, v in want.items()}
            got = run('has-dependents', text, r.choice([[], ['-r'], ['-r0']]))
            if got is not None:
                o.count('dependents', sum(map(len, want.values())))
                compare(o, 'has-dependents', relation(
                    got, 'library', 'has-dependent', o, 'has-dependents',
                    data), want, data)
    o.sample(text)
    return o


def main():
    c = Check('C15', 'Random projects (several packages and repositories, '
              'aliases, cycles, dangling and repeated dependencies, labels in '
              'all spellings, values needing evaluation) and all commands on '
              'dependencies at several depths. Distinct: project, pattern and '
              'depth.', min_evaluations=2000, min_distinct=400,
              assumptions=['Target names are unique in a package'])
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(240, 8000))])
    c.finish()


main()
