"""Generates whole projects: packages with targets, dependencies between them,
sources including headers, external repositories. Labels are tuples
(project, path, name), with project '' or '@name'."""
import os
from vlib.core import write_tree

PATHS = ['', 'a', 'a/b', 'a/b/c', 'ab', 'a/bc', 'lib', 'lib/core', 'x-y',
         'src/main', 'a.b', 'b', 'third_party/zlib', 'proto', 'foo', 'foo/foo',
         '_x', 'UP', 'b/a', 'lib2', 'x/BUILDS', 'BUILD.d/y', 'my_tmp', '.gits/w',
         'WORKSPACE.d']
NAMES = ['a', 'b', 'lib', 'core', 'foo', 'foo_lib', 'bar', 'baz', 'util', 'x-y',
         'all_things', 'foo-bar', 'A', 'z9', 'foo.bar', 'lib+', 'main', 'ab',
         'foo/sub', 'zlib', '_p', 'b2', 'b10']
REPOS = ['@ext', '@ext2', '@com_x', '@x-1', '@foo']


def canonical(t):
    if t[1] and t[1].split('/')[-1] == t[2]: return t[0] + '//' + t[1]
    if not t[1] and t[0] and t[0][1:] == t[2]: return t[0]
    return '%s//%s:%s' % t


def relative(t, ctx):
    return ':' + t[2] if t[:2] == ctx else canonical(t)


def spellings(t, ctx):
    """All ways to write the label t in package ctx."""
    project, path, name = t
    last = path.split('/')[-1] if path else None
    pkg = '//' + path
    out = []
    if project:
        out.append(project + pkg + ':' + name)
        if last == name: out.append(project + pkg)
        if not path and name == project[1:]: out.append(project)
    else:
        out.append('@' + pkg + ':' + name)
        if last == name: out.append('@' + pkg)
    if project == ctx[0]:
        out += [pkg + ':' + name] * 2
        if last == name: out.append(pkg)
        if path == ctx[1]:
            out += [':' + name] * 3 + [name]
    return out


def quoted(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class Raw(str):
    """An expression to be written as is."""


class Target:
    def __init__(self, pkg, rule, name, **attrs):
        self.pkg, self.rule, self.name = pkg, rule, name
        self.attrs = attrs          # as in the BUILD file (labels as written)
        self.deps = []              # labels denoted by deps, in order
        self.actual = None
        self.keep = set()           # deps marked with a comment

    @property
    def label(self):
        return (self.pkg.project, self.pkg.path, self.name)


class Package:
    def __init__(self, project, path):
        self.project, self.path = project, path
        self.targets = []
        self.head = ''             # statements before the targets
        self.build = 'BUILD'
        self.shadowed = None       # content of the other BUILD file

    @property
    def ctx(self):
        return (self.project, self.path)

    @property
    def dir(self):
        return self.path + '/' if self.path else ''


class Ws:
    def __init__(self, r, paths=None, repos=None, fancy=False):
        """fancy: attribute values need evaluation"""
        self.r, self.fancy = r, fancy
        self.packages = []
        self.files = {}            # relative to the project
        self.ext_files = {}        # relative to the external directory
        self.repos = {}            # @name -> (directory, version)
        if paths is None:
            paths = r.sample(PATHS, r.choice([1, 3, 6, 10]))
        for p in paths: self.add_package('', p)
        if repos is None:
            repos = r.sample(REPOS, r.choice([0, 0, 1, 2]))
        for name in repos:
            v = r.choice(['', '1.0', '20230802.1', '1.2.3-rc4'])
            self.repos[name] = (name[1:] + ('~' + v if v else
                                            r.choice(['', '~', '~override'])),
                                v)
            for p in r.sample(PATHS, r.choice([1, 1, 3])):
                self.add_package(name, p)
            if not any(p.project == name for p in self.packages):
                self.add_package(name, '')

    def add_package(self, project, path):
        p = Package(project, path)
        p.build = self.r.choice(['BUILD', 'BUILD.bazel'])
        self.packages.append(p)
        return p

    def package(self, project, path):
        for p in self.packages:
            if p.ctx == (project, path): return p
        return None

    @property
    def targets(self):
        return [t for p in self.packages for t in p.targets]

    def add_target(self, pkg, rule, name, **attrs):
        t = Target(pkg, rule, name, **attrs)
        pkg.targets.append(t)
        return t

    def fresh_name(self, pkg, pool=None):
        r = self.r
        used = {t.name for t in pkg.targets}
        last = pkg.path.split('/')[-1] if pkg.path else pkg.project[1:]
        for _ in range(50):
            n = last if last and r.random() < .2 else r.choice(pool or NAMES)
            if n not in used: return n
        return 'n%d' % len(used)

    def dep_on(self, t, labels):
        """Sets deps to the labels, in whatever spelling."""
        t.deps = list(labels)
        t.attrs['deps'] = [self.r.choice(spellings(l, t.pkg.ctx))
                           for l in labels]

    # -- as text
    def list_text(self, l, keep=(), pos=0):
        r = self.r
        items = [quoted(s) for s in l]
        k = r.randrange(5)
        if keep:
            k = 4
        if k == 0: return '[' + ','.join(items) + ']'
        if k == 1: return '[' + ', '.join(items) + (', ]' if items else ' ]')
        if k == 2: return '[\n' + ''.join('        %s,\n' % i
                                         for i in items) + '    ]'
        if k == 3: return '[ ' + ' , # c\n'.join(items) + '\n]'
        return '[\n' + ''.join(
            '  %s,%s\n' % (i, (r.choice([' # keep', '  # IWYU: keep this',
                                         '#keep'])
                               if s in keep else ''))
            for s, i in zip(l, items)) + ']'

    def value_text(self, v, defs, keep=()):
        r = self.r
        if isinstance(v, Raw): return str(v)
        if isinstance(v, bool):
            return r.choice(['True', '1'] if v else ['False', '0'])
        if isinstance(v, int): return str(v)
        if isinstance(v, str):
            if self.fancy and r.random() < .25 and '\\' not in v:
                i = r.randrange(len(v) + 1)
                k = r.randrange(2)
                if k == 0: return quoted(v[:i]) + ' + ' + quoted(v[i:])
                n = 'V%d' % len(defs)
                defs.append('%s = %s\n' % (n, quoted(v)))
                return n
            return quoted(v)
        if self.fancy and not keep and r.random() < .5:
            k = r.randrange(5)
            i = r.randrange(len(v) + 1)
            if k == 0:
                return self.list_text(v[:i]) + ' + ' + self.list_text(v[i:])
            if k == 1:
                n = 'L%d' % len(defs)
                defs.append('%s = %s\n' % (n, self.list_text(v)))
                return n
            if k == 2:
                n = 'L%d' % len(defs)
                defs.append('%s = %s\n' % (n, self.list_text(v[:i])))
                return n + ' + ' + self.list_text(v[i:])
            if k == 3:
                return self.list_text(v[:i]) + \
                    ' + select({"//conditions:default": ' + \
                    self.list_text(v[i:]) + '})'
            j = r.randrange(i, len(v) + 1)
            return '%s + %s + %s' % (self.list_text(v[:i]),
                                     self.list_text(v[i:j]),
                                     self.list_text(v[j:]))
        return self.list_text(v, keep)

    def target_text(self, t, defs):
        r = self.r
        args = [('name', t.name)] + list(t.attrs.items())
        if r.random() < .4: r.shuffle(args)
        out = []
        for k, v in args:
            out.append('%s%s%s' % (k, r.choice([' = ', '=', ' = ']),
                                   self.value_text(v, defs, t.keep
                                                   if k == 'deps' else ())))
        sep = r.choice([',\n    ', ', ', ',\n  '])
        end = r.choice(['', ','])
        k = r.randrange(4)
        if k == 0: return '%s(%s%s)\n' % (t.rule, sep.join(out), end)
        if k == 1: return '# c\n%s(\n    %s%s\n)\n\n' % (
            t.rule, sep.join(out), end)
        return '%s(\n  %s%s  # end\n)\n' % (t.rule, sep.join(out), end)

    def package_text(self, p):
        defs = []
        body = ''.join(self.target_text(t, defs) for t in p.targets)
        return p.head + ''.join(defs) + body

    def tree(self):
        """All files, below the scratch directory."""
        out = {}
        for p in self.packages:
            base = 'ws/main/' if not p.project else \
                'base/external/%s/' % self.repos[p.project][0]
            out[base + p.dir + p.build] = self.package_text(p)
            if p.shadowed is not None and p.build == 'BUILD.bazel':
                out[base + p.dir + 'BUILD'] = p.shadowed
        for f, c in self.files.items(): out['ws/main/' + f] = c
        for f, c in self.ext_files.items(): out['base/external/' + f] = c
        mod = ''.join('bazel_dep(name = "%s"%s)\n' % (
            n[1:], ', version = "%s"' % v if v else '')
            for n, (d, v) in self.repos.items())
        out.setdefault('ws/main/MODULE.bazel', 'module(name = "m")\n' + mod)
        return out

    def write(self, d):
        """-> the directory to run in"""
        write_tree(d, self.tree())
        os.makedirs(d + '/base/execroot/_main/bazel-out', exist_ok=True)
        os.makedirs(d + '/base/external', exist_ok=True)
        if not os.path.lexists(d + '/ws/main/bazel-out'):
            os.symlink(d + '/base/execroot/_main/bazel-out',
                       d + '/ws/main/bazel-out')
        return d + '/ws/main'


def random_graph(r, fancy=False, aliases=True, n=None, **kw):
    """Packages with all kinds of rules that depend on each other (and on
    things that do not exist), in cycles as well."""
    ws = Ws(r, fancy=fancy, **kw)
    n = n or r.choice([2, 5, 12, 30])
    rules = ['cc_library'] * 5 + ['cc_binary', 'cc_test', 'my_rule',
                                  'py_library', 'proto_library']
    if aliases: rules += ['alias'] * 3
    for _ in range(n):
        p = r.choice(ws.packages)
        ws.add_target(p, r.choice(rules), ws.fresh_name(p))
    ts = ws.targets
    acyclic = r.random() < .4
    for i, t in enumerate(ts):
        pool = ts[:i] if acyclic else ts
        def some():
            k = r.random()
            if k < .06 or not pool:
                return ('', r.choice(['nope', 'a/nope', t.pkg.path]),
                        'missing%d' % r.randrange(3))
            if k < .08: return ('@unknown', '', 'unknown')
            if k < .45:     # close by
                near = [x for x in pool if x.pkg is t.pkg] or pool
                return r.choice(near).label
            return r.choice(pool).label
        if t.rule == 'alias':
            t.actual = some()
            t.attrs['actual'] = r.choice(spellings(t.actual, t.pkg.ctx) or
                                         [canonical(t.actual)])
            continue
        k = r.choice([0, 1, 2, 2, 5])
        deps = [some() for _ in range(k)]
        if deps and r.random() < .15: deps.append(r.choice(deps))
        # From another repository, there has to be a way to write it.
        if k or r.random() < .5: ws.dep_on(t, deps)
        for a in ('data', 'srcs', 'visibility', 'tags'):
            if r.random() < .15:
                t.attrs[a] = [canonical(r.choice(ts).label)]
    return ws


def all_deps(t):
    """What a target depends on, once each."""
    out = list(dict.fromkeys(t.deps))
    if t.actual and t.actual not in out: out.append(t.actual)
    return out
