"""C22: the compilation database and the flags, of generated projects."""
import json, os, random
from common import *
from vlib import gen_ws
from vlib.gen_ws import Raw

RULES = ['cc_library'] * 4 + ['cc_binary', 'cc_test']
BASE = 'bazel-out/../../../external/'
STEMS = ['a', 'b', 'foo', 'x-y', 'x+y', 'sub/a', 'sub/deep/b', 'naïve', 'a b',
         'z.pb', "it's", 'at@x', 'a,b', '(1)', 'UP', 'x%20']
DIRS = ['x', 'with space', 'qu"ote', 'back\\slash', 'ü', "a'b", 'tab\there',
        '\x01\x1f', '"', '{}', '#', 'new\nline']
OPTS = ['-std=c++20', '-std=c++17', '-Wall', '-Werror', '-Wno-foo-bar',
        '-DX=1', '-DY', '-D_Z=a/b', '-fno-exceptions', '-O3', '-stdlib=libc++',
        '-DS=\\x', '-W#warnings', '-Ifoo']


def bazelrc(r):
    """-> text, options"""
    out, opts = [], []
    gtest = False
    for _ in range(r.choice([0, 1, 3, 8])):
        k = r.randrange(10)
        cmd = r.choice(['build', 'build', 'test', 'common', 'run'])
        if k < 6:
            line = [cmd]
            for _ in range(r.choice([1, 1, 2, 3])):
                opt = r.choice(OPTS)
                q = r.choice(['', '', '', '"', "'"])
                line.append(r.choice(['--cxxopt=', '--cxxopt ', '--cxxopt=',
                                      '--host_cxxopt=']) + q + opt + q)
                if opt not in opts: opts.append(opt)
                if r.random() < .3: line.append('--jobs=3')
            out.append(r.choice([' ', '  ', '\t']).join(line))
        elif k == 6: out.append(r.choice(['# ', '#', '  # ']) + cmd +
                                ' --cxxopt=-Dcomment%d' % r.randrange(3))
        elif k == 7: out.append(cmd + ' --copt=-Dnot_cxx --linkopt=-lm '
                                '--cxxopt=/windows --action_env=PATH')
        elif k == 8:
            out.append(r.choice(['', 'import %workspace%/x.bazelrc',
                                 'build -c opt']))
        elif r.random() < .5:
            out.append('build --define absl=1')
            gtest = True
        else: out.append('# build --define absl=1')
    if gtest: opts.append('-DGTEST_HAS_ABSL=1')
    return '\n'.join(out) + r.choice(['\n', '']), opts


def project(r):
    ws = gen_ws.Ws(r, fancy=r.random() < .4, repos=r.sample(
        gen_ws.REPOS + ['@com_google_protobuf'], r.choice([0, 1, 2])))
    ws.listed = {}       # target label -> paths in package
    for _ in range(r.choice([1, 3, 8, 20])):
        p = r.choice(ws.packages)
        t = ws.add_target(p, r.choice(RULES * 2 + [
            'my_rule', 'py_library', 'proto_library', 'alias']),
            ws.fresh_name(p))
        files = ws.listed[t.label] = []
        if t.rule in RULES + ['py_library', 'my_rule']:
            for a, exts in (('srcs', ['.cc', '.cpp', '.h', '.S']),
                            ('hdrs', ['.h', '.hpp', '.inc'])):
                k = r.random()
                if k < .25: continue
                fs = [r.choice(STEMS) + r.choice(exts)
                      for _ in range(r.choice([0, 1, 2, 5]))]
                written = [r.choice([f, f, f, f, ':' + f,
                                     '//%s:%s' % (p.path, f)]) for f in fs]
                if k < .35 and p.path != '':
                    # and what is on disk
                    ext = r.choice(exts)
                    disk = sorted({r.choice(STEMS).replace('/', '_') + ext
                                   for _ in range(3)})
                    base = p.dir if not p.project else None
                    if base is not None and not any(
                            f.startswith(base) for f in ws.files):
                        for f in disk:
                            f = (base + f).encode().decode('latin-1')
                            ws.files[f] = ''
                        t.attrs[a] = Raw(ws.list_text(written) +
                                         ' + glob(["*%s"])' % ext)
                        files += fs + disk
                        continue
                t.attrs[a] = written
                files += fs
        if r.random() < .15: t.attrs['textual_hdrs'] = ['textual.inc']
        if r.random() < .2: t.attrs['data'] = ['data.txt']
        if r.random() < .25:
            t.attrs['includes'] = r.sample(['inc', 'include', 'src/x', '.'],
                                           r.choice([1, 2]))
        if r.random() < .2:
            t.attrs['include_prefix'] = r.choice(['pre', 'a/b'])
    # globbed files have to be the same as at the end
    for t in ws.targets:
        if t.rule == 'alias':
            t.actual = r.choice(ws.targets).label
            if not r.choice(ws.packages): continue
            sp = gen_ws.spellings(t.actual, t.pkg.ctx)
            t.attrs = {'actual': r.choice(sp)}
            continue
        pool = [x.label for x in ws.targets] + \
            [(p.project, p.path, 'nope') for p in ws.packages] + \
            [('@unknown', '', 'x')]
        if t.pkg.project: pool = [l for l in pool if l[0]]
        ws.dep_on(t, r.sample(pool, min(len(pool), r.choice([0, 1, 2, 4]))))
    for t in ws.targets:    # an external one can not refer to the main one
        if t.pkg.project and t.actual and not t.actual[0]:
            t.actual = t.label
            t.attrs['actual'] = ':' + t.name
    return ws


def ext(ws, p):
    return BASE + ws.repos[p][0] if p in ws.repos else None


def where(ws, t, f):
    return (ext(ws, t.pkg.project) + '/' if t.pkg.project else '') + \
        t.pkg.dir + f


def include_dirs(ws, targets):
    out = set()
    for t in targets:
        if t.rule not in RULES + ['proto_library']: continue
        for i in t.attrs.get('includes', []): out.add(where(ws, t, i))
        x = 'external/%s/' % t.pkg.project[1:] if t.pkg.project else ''
        if t.attrs.get('include_prefix'):
            out.add('bazel-bin/%s%s/_virtual_includes/%s' % (
                x, t.pkg.path, t.name))
        for l in t.deps:
            if l[0] and l[0] in ws.repos:
                out |= {ext(ws, l[0]), 'bazel-bin/external/' + l[0][1:]}
        if 'protobuf' in t.pkg.project:
            b = 'bazel-bin/%ssrc/google/protobuf/' % x
            out |= {b + '_virtual_includes/protobuf_headers',
                    b + 'stubs/_virtual_includes/lite',
                    b + 'io/_virtual_includes/io'}
            if t.rule == 'proto_library':
                out.add(b + '_virtual_includes/' + t.name)
    return out


def patterns(ws, r):
    p = r.choice(ws.packages)
    if r.random() < .5: return r.choice([
        ('//...', lambda l: l[0] == ''), ('...', lambda l: l[0] == '')])
    pkg = p.project + '//' + p.path
    out = [(pkg + ':all', lambda l: l[:2] == p.ctx),
           (pkg + ('/...' if p.path else '...'),
            lambda l: l[0] == p.project and
            (l[1] + '/').startswith(p.path + '/' if p.path else ''))]
    if p.targets:
        t = r.choice(p.targets)
        out.append((pkg + ':' + t.name, lambda l: l == t.label))
    return r.choice(out)


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    ws = project(r)
    pattern, selects = patterns(ws, r)
    rc, opts = bazelrc(r)
    if r.random() < .1: opts = []
    else: ws.files['.bazelrc'] = rc
    with Scratch() as d:
        d += '/' + r.choice(DIRS)
        os.mkdir(d)
        tree = {k: v.encode() for k, v in ws.tree().items()}
        ws.tree = lambda: tree
        cwd = ws.write(d)
        data = (pattern, tree, rc)
        db = run2([bant, 'compilation-db', pattern], cwd=cwd)
        flags = run2([bant, 'compile-flags', pattern], cwd=cwd)
        real = os.path.realpath(cwd)
    for res in (db, flags):
        if res.crashed or res.timed_out or res.rc:
            o.bad('command failed', '%d %r' % (res.rc, res.err[-900:]), data)
            return o
    o.evaluations += 1
    try: entries = json.loads(db.out.decode())
    except ValueError as e:
        o.bad('not well-formed', '%s: %r' % (e, db.out[-400:]), data)
        return o
    chosen = [t for t in ws.targets if selects(t.label)]
    want = sorted({where(ws, t, f) for t in chosen if t.rule in RULES
                   for f in ws.listed[t.label]})
    o.sigs.add(sig((pattern, sorted(tree.items()))))
    o.count('targets', len(chosen))
    o.count('files', len(want))
    got = [e.get('file') for e in entries]
    if sorted(got) != want:
        o.bad('other files', 'missing %s, too much %s' % (
            [f for f in want if f not in got][:3],
            [f for f in got if f not in want or got.count(f) > 1][:3]), data)
        return o
    lines = flags.out.decode().splitlines()
    n = len(opts)
    if lines[:n] != opts:
        o.bad('other options', '%s instead of %s' % (lines[:n + 1], opts),
              data)
        return o
    incs = [l[2:] for l in lines[n:]]
    if any(not l.startswith('-I') for l in lines[n:]):
        o.bad('other flags', repr(lines), data)
    # of everything that is reached
    seen, todo = set(), [t.label for t in chosen]
    by = {t.label: t for t in ws.targets}
    while todo:
        l = todo.pop()
        if l in seen or l not in by: continue
        seen.add(l)
        todo += gen_ws.all_deps(by[l])
    need = include_dirs(ws, [by[l] for l in seen]) | {'.', 'bazel-bin'}
    may = include_dirs(ws, ws.targets) | {'.', 'bazel-bin'}
    o.count('options', n)
    o.count('include_dirs', len(need))
    if not need <= set(incs):
        o.bad('include directory missing', repr(need - set(incs)), data)
    if not set(incs) <= may:
        o.bad('include directory of nothing', repr(set(incs) - may), data)
    if incs[:2] != ['.', 'bazel-bin']:
        o.bad('project not first', repr(incs[:3]), data)
    tail = list(opts)
    for i in incs: tail += ['-iquote', i]
    for e in entries:
        a = e.get('arguments', [])
        if set(e) != {'file', 'arguments', 'directory'} or \
           e['directory'] != real or a[:2] != ['gcc', '-xc++'] or \
           a[-2:] != ['-c', e['file']] or \
           (a[:-2][-len(tail):] if tail else []) != tail or \
           any(not x.startswith('-') for x in a[1:-2 - len(tail)]):
            o.bad('entry', '%r: %r expected in there' % (e, tail), data)
            break
    return o


def main():
    c = Check('C22', 'Random projects with C++ targets and configurations; '
              'distinct by project and pattern.',
              min_evaluations=400, min_distinct=400,
              assumptions=['Options without blanks, and not for a --config',
                           'Sources are files'])
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(800, 30000))])
    c.finish()


main()
