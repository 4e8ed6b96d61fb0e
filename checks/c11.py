"""C11: glob patterns against a reference matcher working on path elements:
the predicates, and glob() in BUILD files of real directory trees."""
import ast, json, os, random, re
from common import *
from vlib.globref import matches, selected

ELEMS = ['a', 'b', 'ab', 'aab', 'foo', 'foobar', 'bar', 'foo.cc', 'bar.cc',
         'foo_test.cc', 'xcc', 'foo.h', 'a.b', 'a+b', 'fo', 'o', 'cc', 'a(b',
         '[x]', 'x', 'a b', 'f\xe9', '\xe9', 'a?c', 'axc', 'a^', '$a', 'a|b',
         'a{2}', 'aa', 'foo.cc.bak', 'src', 'test', 'a-b', 'é', 'foo_test.h',
         "a'b", 'data.d', '~a', 'a,b', '123', 'a#b', 'a=b']


def elem_pattern(r, elems):
    e = r.choice(elems)
    k = r.randrange(8)
    if k < 2: return e
    if k == 2: return '*'
    i = r.randrange(len(e) + 1)
    j = r.randrange(i, len(e) + 1)
    return {3: e[:i] + '*', 4: '*' + e[i:], 5: e[:i] + '*' + e[j:],
            6: '*' + e[i:j] + '*', 7: e[:1] + '*' + e[-1:] + '*'}[k].replace(
                '**', '*')


def pattern(r, elems, paths):
    if r.random() < .5 and paths:
        # from something that exists
        parts = r.choice(paths).split('/')
        out = []
        i = 0
        while i < len(parts):
            k = r.random()
            if k < .2:
                out.append('**')
                i += r.choice([0, 1, 1, 2, 3])
            elif k < .5:
                e = parts[i]
                a = r.randrange(len(e) + 1)
                b = r.randrange(a, len(e) + 1)
                out.append((e[:a] + '*' + e[b:]).replace('**', '*'))
                i += 1
            else:
                out.append(parts[i])
                i += 1
        return '/'.join(out)
    out = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        out.append('**' if r.random() < .25 else elem_pattern(r, elems))
    return '/'.join(out)


def parents(path):
    parts = path.split('/')
    return ['/'.join(parts[:i]) for i in range(1, len(parts))]


def make_paths(r, elems, n):
    dirs = ['']
    for _ in range(r.choice([2, 5, 10])):
        d = r.choice(dirs)
        e = r.choice(elems)
        dirs.append(d + '/' + e if d else e)
    out = set()
    for _ in range(n):
        d = r.choice(dirs)
        out.add((d + '/' if d else '') + r.choice(elems))
    alldirs = {p for f in out for p in parents(f)}
    return sorted(out - alldirs)


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases, recs = [], []
    for _ in range(n):
        elems = r.sample(ELEMS, r.choice([3, 6, len(ELEMS)]))
        paths = make_paths(r, elems, 25)
        inc = [pattern(r, elems, paths) for _ in range(r.choice([1, 1, 2, 4]))]
        exc = [pattern(r, elems, paths) for _ in range(r.choice([0, 0, 1, 3]))]
        ds = sorted({d for p in paths for d in parents(p)})
        cases.append((inc, exc, paths, ds))
        recs.append([str(len(inc))] + inc + [str(len(exc))] + exc +
                    ['f:' + p for p in paths] + ['d:' + d for d in ds])
    for (inc, exc, paths, ds), a in zip(
            cases, core.probe_batch(binary, 'globs', recs)):
        if isinstance(a, dict):
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''),
                  (inc, exc))
            continue
        o.sigs.add(sig((inc, exc)))
        need = set()
        for p, got in zip(paths, a):
            want = selected(inc, exc, p)
            o.evaluations += 1
            o.count('selected' if want else 'not_selected')
            if got != '01'[want]:
                o.bad('file predicate', 'include %r exclude %r %s %r' % (
                    inc, exc, 'selects' if got == '1' else 'does not select',
                    p), (inc, exc, p))
            if any(matches(i, p) for i in inc):
                need |= set(parents(p))
        # Not only what is here: directories that could hold a match
        for d in ds:
            for tail in ('zz', 'a', 'foo.cc', 'zz/foo.cc', 'a/b/foo.cc'):
                if any(matches(i, d + '/' + tail) for i in inc):
                    need.add(d)
                    need |= set(parents(d))
        for d, got in zip(ds, a[len(paths):]):
            o.evaluations += 1
            if d in need:
                o.count('directories_needed')
                if got != '1':
                    o.bad('directory pruned', 'include %r: %r' % (inc, d),
                          (inc, d))
            else:
                o.count('directories_not_needed')
                o.count('directories_pruned', got == '0')
    o.sample(repr(cases[0][:2]))
    return o


def quoted(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def command_case(bant, seed):
    """glob() in a real tree, with other packages in it."""
    o = Out()
    r = random.Random(seed)
    elems = [e for e in r.sample(ELEMS, r.choice([4, 8, 15]))]
    paths = make_paths(r, elems, r.choice([10, 40, 80]))
    alldirs = sorted({d for p in paths for d in parents(p)})
    subpkg = [d for d in alldirs if r.random() < .1]
    pkg = r.choice(['', '', 'pkg', 'some/p.kg', 'p+g(x'])
    pre = pkg + '/' if pkg else ''
    globs = []
    for i in range(6):
        inc = [pattern(r, elems, paths) for _ in range(r.choice([1, 1, 2, 4]))]
        exc = [pattern(r, elems, paths) for _ in range(r.choice([0, 0, 1, 3]))]
        globs.append((inc, exc, r.randrange(5)))
    text = ''
    for i, (inc, exc, form) in enumerate(globs):
        il = '[' + ', '.join(map(quoted, inc)) + ']'
        el = '[' + ', '.join(map(quoted, exc)) + ']'
        call = [il + ', exclude = ' + el, 'include = %s, exclude = %s' % (
            il, el), 'exclude = %s, include = %s' % (el, il), il + ', ' + el,
            il + ', exclude = ' + el + ', allow_empty = True'][form]
        text += 'filegroup(name = "g%d", srcs = glob(%s))\n' % (i, call)
    files = {pre + p: '' for p in paths}
    files[pre + 'BUILD'] = text
    for d in subpkg:
        files[pre + d + '/' + r.choice(['BUILD', 'BUILD.bazel'])] = ''
    files['MODULE.bazel'] = ''
    if pkg: files['elsewhere/foo.cc'] = ''
    with Scratch() as d:
        try:
            write_tree(d, files)
        except (IsADirectoryError, FileExistsError, NotADirectoryError):
            return o
        for p in alldirs:
            if r.random() < .1 and not os.path.exists(d + '/' + pre + p + '/E'):
                os.makedirs((d + '/' + pre + p + '/empty.d').encode('latin-1'),
                            exist_ok=True)
        res = run2([bant, 'print', '-e', '//%s:all' % pkg], cwd=d)
    if res.crashed or res.timed_out or res.rc != 0:
        o.bad('command failed', '%d %r' % (res.rc, res.err[-500:]), files)
        return o
    out = res.out.decode('latin-1')
    got = {}
    for m in re.finditer(r'^filegroup\(.*?^\)', out, re.M | re.S):
        try:
            call = ast.parse(m[0]).body[0].value
            kw = {k.arg: ast.literal_eval(k.value) for k in call.keywords}
            got[kw['name']] = kw['srcs']
        except (SyntaxError, ValueError, KeyError) as e:
            o.bad('not evaluated', m[0], files)
            return o
    exists = [p[len(pre):] for p in files if p.startswith(pre)]
    visible = [p for p in exists
               if not any(p.startswith(s + '/') for s in subpkg)]
    for i, (inc, exc, form) in enumerate(globs):
        want = sorted((p for p in visible if selected(inc, exc, p)),
                      key=lambda s: s.encode('latin-1'))
        o.evaluations += 1
        o.sigs.add(sig((inc, exc, want)))
        o.count('glob_files', len(want))
        o.count('glob_empty', not want)
        if got.get('g%d' % i) != want:
            g = got.get('g%d' % i)
            o.bad('glob() selects something else' if g is None or
                  sorted(g) != sorted(want) else 'order of glob()',
                  'include %r exclude %r: additional %r missing %r' % (
                      inc, exc, sorted(set(g or ()) - set(want))[:4],
                      sorted(set(want) - set(g or ()))[:4]),
                  (inc, exc, sorted(files)))
    return o


def main():
    c = Check('C11', 'Random include and exclude patterns (made from, and '
              'near, existing paths) on random trees; predicates and '
              'evaluated glob() calls. Distinct: by patterns (and result).',
              min_evaluations=50000, min_distinct=3000,
              assumptions=['No file names starting with a dot or with '
                           'backslash or newline; ** only as whole element'])
    binary = built(build.probe, 'util')
    bant = built(build.bant)
    c.pool(batch, [(binary, s, c.n(100, 400)) for s in c.seeds(c.n(64, 1500))])
    c.pool(command_case, [(bant, s)
                          for s in c.seeds(c.n(500, 10000), 'cmd')])
    c.finish()


main()
