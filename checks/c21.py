"""C21: external repositories. Generated module declarations and directories in
the output base; where the tool says these are, and where it then reads."""
import json, os, random, shutil
from common import *

NAMES = ['a', 'ab', 'abc', 'a-b', 'a.b', 'a_b', 'A', 'b', 'rules_x',
         'rules_xy', 'zlib', 'zlib2', 'com_google_absl', 'x1']
VERSIONS = ['', '', '1.0', '1.2.3', '1.10', '2', '0.0.0-20240101', '1.0.bcr.2',
            'override']
FILES = ['WORKSPACE', 'WORKSPACE.bazel', 'WORKSPACE.bzlmod', 'MODULE.bazel']


class Project:
    def __init__(self, r):
        self.r = r
        self.names = r.sample(NAMES, r.choice([1, 3, 6, len(NAMES)]))
        self.decl = []      # (file, name, version, repo name)
        self.entries = {}   # name in external -> kind
        for n in self.names:
            self.declare(n)
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                v = r.choice(VERSIONS + [d[2] for d in self.decl
                                         if d[1] == n] * 4)
                e = r.choice([n, n + '~' + v, n + '~' + v, n + '~' + v,
                              n + '~', n + '~override',
                              '%s~%s~ext~%s' % (n, v, r.choice(NAMES)),
                              '%s~%s~ext' % (n, v), '%s+%s' % (n, v),
                              '.' + n, '@' + n + '.marker', '~' + n])
                self.entries[e] = r.choice(['dir'] * 8 + [
                    'file', 'link', 'link', 'dangling', 'filelink', 'empty'])
        self.external = r.random() > .03
        self.refs = [n for n in self.names if r.random() < .6]

    def declare(self, n):
        r = self.r
        for f in r.sample(FILES, r.choice([0, 1, 1, 1, 2])):
            alias = r.choice(['', '', '', '', 'my_' + n, r.choice(NAMES)])
            self.decl.append((f, n, r.choice(VERSIONS), alias))
        self.decl.sort(key=lambda d: FILES.index(d[0]))

    def text(self, f):
        r = self.r
        out = []
        if f == 'MODULE.bazel':
            out.append(r.choice(['', 'module(name = "m", version = "0")\n']))
        for _, n, v, alias in [d for d in self.decl if d[0] == f]:
            args = ['name = "%s"' % n]
            if v or r.random() < .1: args.append('version = "%s"' % v)
            if alias: args.append('repo_name = "%s"' % alias)
            if r.random() < .3: args.append('dev_dependency = True')
            if r.random() < .3: args.append(
                'urls = ["https://x/%s-9.tgz"],\n sha256 = "00"' % n)
            r.shuffle(args)
            out.append('%s(%s)\n' % (r.choice(['bazel_dep', 'http_archive']),
                                     r.choice([', ', ',\n    ']).join(args)))
            # about something else
            if r.random() < .2: out.append(
                'archive_override(module_name = "%s", version = "7")\n' % n)
            if r.random() < .2: out.append(
                '# bazel_dep(name = "%s", version = "6")\n' % n)
            if r.random() < .2: out.append(
                'other_rule(name = "%s", version = "5")\n' % r.choice(NAMES))
        return ''.join(out)

    def write(self, d, texts, order):
        w = d + '/ws/main'
        ext = d + '/base/external'
        os.makedirs(w + '/p/q')
        os.makedirs(w + '/r')
        os.makedirs(d + '/base/execroot/_main/bazel-out')
        os.makedirs(d + '/elsewhere')
        os.symlink(d + '/base/execroot/_main/bazel-out', w + '/bazel-out')
        for f, t in texts.items():
            with open(w + '/' + f, 'w') as fh: fh.write(t)
        if not self.external: return w
        os.makedirs(ext)
        for e in order:
            p, k = ext + '/' + e, self.entries[e]
            if k in ('link', 'dangling', 'filelink'):
                os.symlink('../../elsewhere/' + e, p)
                p = d + '/elsewhere/' + e
            if k in ('file', 'filelink'):
                with open(p, 'w') as fh: fh.write('')
            elif k != 'dangling':
                os.makedirs(p)
                if k != 'empty':
                    with open(p + '/BUILD', 'w') as fh:
                        fh.write('cc_library(name = "t")\n')
        return w

    # -- reference
    def is_dir(self, e):
        return self.external and self.entries.get(e) in ('dir', 'link', 'empty')

    def resolve(self, n, v):
        """All directories that are fine."""
        for e in ([n + '~' + v] if v else []) + [n, n + '~override']:
            if self.is_dir(e): return {e}
        return {e for e in self.entries if e.startswith(n + '~') and
                e.count('~') == 1 and self.is_dir(e)}

    def rows(self):
        """(project, version) -> directories it might be"""
        out = {}
        for _, n, v, alias in self.decl:
            dirs = self.resolve(n, v)
            if dirs: out[alias or n, v] = dirs
        have = {p for p, _ in out}
        more = {}
        for e in self.entries:
            n, _, v = e.partition('~')
            if n and e[0] != '.' and n not in have and e.count('~') < 2 and \
               self.is_dir(e):
                more.setdefault(n, []).append((v, e))
        return out, more


BASE = 'bazel-out/../../../external/'


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    p = Project(r)
    texts = {f: p.text(f) for f in FILES
             if f == 'MODULE.bazel' or any(d[0] == f for d in p.decl)}
    names = sorted({x for d in p.decl for x in (d[1], d[3]) if x} |
                   {e.split('~')[0] for e in p.entries if e[0] not in '.@~'} |
                   {'unknown'})
    # Projects that are referred to from the targets of two packages, in
    # between other references.
    uses = []   # (package, target or None for a load(), projects)
    for pkg in ('p', 'p/q', 'r'):
        main = []
        for n in names:
            if r.random() < .08:
                uses.append((pkg, None, [n]))
                main.append('load("@%s//x:y.bzl", "z")\n' % n)
        for k in range(r.randrange(5)):
            some = r.sample(names, min(len(names), r.choice([0, 1, 1, 2, 3])))
            deps = ['@%s//%s' % (n, r.choice([':t', 'a:b', 'c', 'a/b']))
                    for n in some]
            t = 'l%d' % k
            if some and r.random() < .25:
                some = some[:1]
                main.append('alias(name = "%s", actual = "%s")\n' % (
                    t, deps[0]))
            else:
                for _ in range(r.choice([0, 1, 3])):
                    deps.insert(r.randrange(len(deps) + 1), r.choice(
                        [':x', '//a:b', '//r', 'x', '@//p:l0', ':l0',
                         '@nowhere//a', '@nowhere', '//a/b:c/d', 'c.cc']))
                main.append('%s(name = "%s", deps = [%s])\n' % (
                    r.choice(['cc_library', 'cc_binary', 'cc_test']), t,
                    ', '.join('"%s"' % x for x in deps)))
            uses.append((pkg, t, some))
        r.shuffle(main)
        texts[pkg + '/BUILD'] = ''.join(main)
    target = r.choice(['//p:all', '//...', '//p/...', '//p/q:all', '//r/...',
                       '//p:l0', '//r:l1', '//p/q:l*', '//nothing/...'])

    def asked(pkg, t):
        if target == '//...' or target == '//%s:all' % pkg: return True
        if target.endswith('/...'):
            return (pkg + '/').startswith(target[2:-3])
        if target.endswith('*'): return target.startswith('//%s:' % pkg)
        return target == '//%s:%s' % (pkg, t) if t else \
            target.startswith('//%s:' % pkg)
    refs = [n for pkg, t, l in uses for n in l if asked(pkg, t)]
    data = (p.decl, p.entries, texts)
    seen = None
    for attempt in range(2):
        order = list(p.entries)
        r.shuffle(order)
        with Scratch() as d:
            w = p.write(d, texts, order)

            def table(*args):
                res = run2([bant] + list(args) + ['-f', 'json'], cwd=w)
                if res.crashed or res.timed_out or res.rc:
                    o.bad('command failed', '%s: %d %r' % (
                        args, res.rc, res.err[-800:]), data)
                    return []
                return [json.loads(l) for l in res.out.decode().splitlines()]
            listed = table('workspace')
            some = table('workspace', target)
            reads = {}
            for n in (r.sample(names, min(6, len(names)))
                      if attempt == 0 else list(seen[2])[:1]):
                rows = table('list-packages', '@%s//...' % n)
                reads[n] = sorted({row['bazel-file'] for row in rows})
        if seen is not None:
            o.count('again in another order')
            if listed != seen[0] or some != seen[1] or \
               any(seen[2][n] != reads[n] for n in reads):
                o.bad('depends on the order of directories', '%r and %r' % (
                    seen, (listed, some, reads)), data)
            break
        seen = (listed, some, reads)
        o.evaluations += 1
        rows, more = p.rows()
        o.sigs.add(sig((p.decl, sorted(p.entries.items()))))
        o.count('resolved', len(rows))
        o.count('unresolved', sum(not p.resolve(x[1], x[2]) for x in p.decl))
        o.count('not_declared', len(more))
        got, where = {}, {}
        for row in listed:
            k = row['project'], row['version'].replace('-', '') \
                if row['version'] == '-' else row['version']
            if not row['directory'].startswith(BASE):
                o.bad('other place', repr(row), data)
            if k in got: o.bad('listed twice', repr(row), data)
            got[k] = row['directory'][len(BASE):]
            where.setdefault(k[0], []).append(got[k])
        for k, dirs in rows.items():
            if got.get(k) not in dirs:
                o.bad('resolved to another directory', '%s is %r, not %s' % (
                    k, got.get(k), sorted(dirs)), data)
        for n, l in more.items():
            have = [(v, x) for (m, v), x in got.items() if m == n]
            if len(have) != 1 or have[0] not in l:
                o.bad('undeclared project', '%s is %r, not one of %s' % (
                    n, have, l), data)
        for k in got:
            if k not in rows and k[0] not in more:
                o.bad('not there, but listed', '%s: %s' % (k, got[k]), data)
        # what is read
        for n, files in reads.items():
            if n in where:
                exp = [[BASE + x + '/BUILD'] if p.entries[x] != 'empty' else []
                       for x in where[n]]
                o.count('read' if files else 'nothing_to_read')
            else:
                exp = [[]]
                o.count('not_read')
            if files not in exp:
                o.bad('reads from elsewhere', '@%s: %s instead of %s' % (
                    n, files, exp), data)
        # what is used
        used = [x for x in some]
        if any(x not in listed for x in used):
            o.bad('used, but not listed', repr(used), data)
        if {x['project'] for x in used} != {n for n in refs if n in where}:
            o.bad('projects used', '%s: %r instead of %r' % (target,
                [x['project'] for x in used],
                sorted({n for n in refs if n in where})), data)
        o.count('used', len(used))
    return o


def main():
    c = Check('C21', 'Random module declarations in all workspace files with '
              'random directories in the output base. Distinct: by '
              'declarations and directories.',
              min_evaluations=300, min_distinct=300,
              assumptions=['Where several versions are there of a project '
                           'of which none is asked for, any of them is fine'])
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(500, 15000))])
    c.finish()


main()
