"""C18: canonicalize on generated projects: what it suggests against a
reference, and what is left once that is applied."""
import random, re
from common import *
from vlib import gen_ws
from vlib.gen_ws import canonical, relative, spellings

EDIT = re.compile(r"buildozer '(add|remove|replace) deps ([^']+)' (.+)$")
INVALID = ['//a:b:c', '//a//b:c', '//a//b', ':a:b']


def project(r, fancy):
    ws = gen_ws.Ws(r, fancy=fancy)
    for _ in range(r.choice([1, 4, 10, 25])):
        p = r.choice(ws.packages)
        ws.add_target(p, r.choice(['cc_library', 'cc_test', 'cc_binary',
                                   'my_rule', 'py_library']),
                      ws.fresh_name(p))
    ts = ws.targets
    for t in ts:
        # what exists and what does not; files and names with slashes as well
        pool = [x.label for x in ts] + [
            (t.pkg.project, t.pkg.path, n) for n in
            ['x.h', 'foo/bar', 'foo/foo', 'a/b/b', 'nope', 'all', '__pkg__']]
        if t.pkg.path:
            pool += [(t.pkg.project, t.pkg.path, t.pkg.path.split('/')[-1]),
                     (t.pkg.project, t.pkg.path.split('/')[-1],
                      t.pkg.path.split('/')[-1])]
        labels = []
        for _ in range(r.choice([0, 1, 3, 8])):
            l = r.choice(pool)
            if t.pkg.project and not l[0]: continue  # can not be needed there
            labels.append(l)
        if labels and r.random() < .3: labels.append(r.choice(labels))
        if labels or r.random() < .5: ws.dep_on(t, labels)
        for a in ('data', 'srcs', 'visibility', 'implementation_deps'):
            if r.random() < .2 and labels:
                t.attrs[a] = [r.choice(spellings(r.choice(labels), t.pkg.ctx))]
    return ws


def patterns(ws, r):
    """(pattern, selects)"""
    p = r.choice(ws.packages)
    pkg = p.project + '//' + p.path
    out = [('//...', lambda l: l[0] == ''), ('...', lambda l: l[0] == '')]
    if r.random() < .4:
        out = [(pkg + ':all', lambda l: l[:2] == p.ctx),
               (pkg + ('/...' if p.path else '...'),
                lambda l: l[0] == p.project and
                (l[1] + '/').startswith(p.path + '/' if p.path else ''))]
        if p.targets:
            t = r.choice(p.targets)
            out.append((pkg + ':' + t.name, lambda l: l == t.label))
    return r.choice(out)


def expected(ws, selects):
    """target -> edits, in order"""
    out = {}
    for t in ws.targets:
        if not selects(t.label): continue
        e = []
        for w, l in zip(t.attrs.get('deps', []), t.deps):
            if l is not None and w != relative(l, t.pkg.ctx):
                e.append((w, relative(l, t.pkg.ctx)))
        if e: out[canonical(t.label)] = e
    return out


def edits(res):
    out, other = {}, []
    for line in res.out.decode('utf-8', 'surrogateescape').splitlines():
        m = EDIT.match(line)
        words = m[2].split(' ') if m else ()
        if not m or m[1] != 'replace' or len(words) != 2:
            other.append(line)
        else:
            out.setdefault(m[3], []).append(tuple(words))
    return out, other


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    fancy = r.random() < .4
    ws = project(r, fancy)
    broken = 0
    if r.random() < .15:
        for t in ws.targets:
            if 'deps' in t.attrs and r.random() < .2:
                i = r.randrange(len(t.deps) + 1)
                t.deps.insert(i, None)
                t.attrs['deps'].insert(i, r.choice(INVALID))
                broken += 1
    pattern, selects = patterns(ws, r)
    args = ['canonicalize', pattern] + r.choice([[], ['-r3'], ['-k']])
    if fancy: args.append('-e')
    with Scratch() as d:
        w = ws.write(d)
        data = (ws.tree(), args)

        def go():
            # texts are chosen anew each time they are written
            res = run2([bant] + args, cwd=w, timeout=60)
            if res.crashed or res.timed_out:
                o.bad('crash', res.err[-1500:].decode('latin-1'), data)
                return None
            got, other = edits(res)
            if other: o.bad('not a rename', repr(other[:3]), data)
            if res.rc != (3 if got else 0):
                o.bad('exit code', '%d with %d edits' % (res.rc, len(got)),
                      data)
            return got
        got = go()
        if got is None: return o
        want = expected(ws, selects)
        o.evaluations += 1
        o.sigs.add(sig((sorted(want.items()), args)))
        o.count('targets', sum(selects(t.label) for t in ws.targets))
        o.count('renames', sum(map(len, want.values())))
        o.count('kept', sum(
            w == relative(l, t.pkg.ctx) for t in ws.targets
            for w, l in zip(t.attrs.get('deps', []), t.deps)
            if l is not None and selects(t.label)))
        o.count('invalid', broken)
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                o.bad('other renames', '%s: %r instead of %r' % (
                    k, got.get(k), want.get(k)), data)
                break
        # apply
        for t in ws.targets:
            e = dict(got.get(canonical(t.label), ()))
            if 'deps' in t.attrs:
                t.attrs['deps'] = [e.get(w, w) for w in t.attrs['deps']]
        ws.write(d)
        again = go()
        if again:
            o.bad('not settled', 'still %r' % again, data)
        elif got: o.count('settled')
    return o


def many(bant, n):
    """The exit code tells if there is any suggestion."""
    o = Out()
    r = random.Random(n)
    counts = [0] * max(1, n // 100)
    for i in range(n): counts[r.randrange(len(counts))] += 1
    text = ['cc_library(name = "l%d")' % i for i in range(max(counts))]
    for i, k in enumerate(counts):
        text.append('cc_library(name = "t%d", deps = [%s])' % (i, ', '.join(
            '"//:l%d"' % j for j in range(k))))
    with Scratch() as d:
        core.write_tree(d, {'BUILD': '\n'.join(text), 'WORKSPACE': ''})
        res = run2([bant, 'canonicalize', '//...'], cwd=d, timeout=120)
    o.evaluations += 1
    o.sigs.add(sig(n))
    if res.crashed or res.timed_out:
        o.bad('crash', res.err[-1500:].decode('latin-1'), n)
        return o
    got, other = edits(res)
    want = {'//:t%d' % i: [('//:l%d' % j, ':l%d' % j) for j in range(k)]
            for i, k in enumerate(counts) if k}
    if other or got != want:
        o.bad('wrong number of renames', '%d instead of %d' % (
            sum(map(len, got.values())), n), n)
    if res.rc != (3 if n else 0):
        o.bad('exit code', '%d with %d edits' % (res.rc, n), n)
    o.count('renames_of_many', n)
    return o


def main():
    c = Check('C18', 'canonicalize on random projects with dependencies in '
              'all spellings, followed by another run with its edits applied. '
              'Distinct: by pattern and expected edits.',
              min_evaluations=400, min_distinct=250,
              assumptions=['External projects do not depend on the main one',
                           'The dependency lists can be evaluated'])
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(1000, 40000))])
    c.pool(many, [(bant, n) for n in
                  [0, 1, 127, 128, 255, 256, 257, 512, 768, 1000, 1024, 4096] +
                  c.n([], [65535, 65536, 65537])])
    c.finish()


main()
