"""C31: what is reported about a project. Oracle: problems of known kind are
planted in otherwise clean projects, each with the place that has to be named
and what has to be mentioned there; nothing else may be reported."""
import os, random, re
from common import *

MARK = re.compile(r'\x01(\d+)\x02(.*?)\x03', re.S)
LOCATED = re.compile(
    rb'^(\S[^\n]*?):(\d+):(\d+)(?:-(\d+)|:(\d+):(\d+))?:(?=[ :]|$)')


class Case:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.marks = 0
        self.build = {}         # package -> list of statements
        self.files = {}         # other files
        self.want = []          # (mark, at verbosity, [mentioned], kind, times)
        self.plain = []         # (at verbosity, [mentioned], kind): no location
        self.broken = {}        # file -> mark of the error
        self.optional = set()   # (mark, command) not evaluated there
        self.within = set()     # marks in which location is to be

    def uid(self):
        self.n += 1
        return self.n

    def mark(self, s):
        self.marks += 1
        return self.marks, '\x01%d\x02%s\x03' % (self.marks, s)

    def expect(self, mark, verbose, mentioned, kind, times=1):
        self.want.append((mark, verbose, mentioned, kind, times))

    def add(self, pkg, *statements):
        self.build.setdefault(pkg, []).extend(statements)

    # -- text
    def pad(self):
        """Between things on the top level."""
        r = self.r
        return r.choice(['', '', '\n', '\n\n', '# comment\n', '#\t"x"\n',
                         '# f\xfcr caf\xe9: //a:b\n', 'X%d = 1\n' % self.uid(),
                         '"""doc\nstring\n"""\n', '\t\n'])

    def lit(self, s, simple=False):
        r = self.r
        k = r.randrange(8)
        if k == 0 and not simple: return 'r"%s"' % s
        if k == 1: return "'%s'" % s
        if k == 2 and not simple: return '"""%s"""' % s
        return '"%s"' % s

    def lst(self, items):
        r = self.r
        k = r.randrange(4)
        if k == 0: return '[\n        %s,\n    ]' % ',\n        '.join(items) \
                if items else '[]'
        if k == 1: return '[' + ',\n '.join(items) + ']'
        return '[' + ', '.join(items) + ']'

    def target(self, pkg, rule, name, **attrs):
        """name and values are program text."""
        r = self.r
        args = [('name', name)] + list(attrs.items())
        if r.random() < .3: r.shuffle(args)
        pre = ''
        out, plain = [], True
        for k, v in args:
            if isinstance(v, list):
                v = self.lst(v)
                if r.random() < .12:
                    var = 'V%d' % self.uid()
                    pre += '%s = %s\n' % (var, v)
                    v = var
                    plain = False
                elif r.random() < .1:
                    v = r.choice(['(%s)', 'select({"//conditions:default": %s})',
                                  '[] + %s', '%s + []']) % v
                    plain = False
            out.append('%s = %s' % (k, v))
        sep = r.choice([', ', ',\n    ', ',\n\t', ', # "why"\n'])
        self.plain_lists = plain
        self.add(pkg, pre + '%s(%s%s%s)' % (rule, r.choice(['', '\n    ']),
                                            sep.join(out),
                                            r.choice(['', ',', ',\n'])))

    def label(self, pkg, name):
        if not pkg: return '//:' + name
        if pkg.rsplit('/', 1)[-1] == name: return '//' + pkg
        return '//%s:%s' % (pkg, name)

    def library(self, pkg, visible=True, **more):
        """-> (label, path of header, name of header)"""
        i = self.uid()
        self.target(pkg, 'cc_library', '"k%d"' % i, hdrs=['"k%d.h"' % i],
                    visibility=['"//visibility:%s"' %
                                ('public' if visible else 'private')], **more)
        path = os.path.join(pkg, 'k%d.h' % i)
        self.files[path] = '// nothing\n'
        return self.label(pkg, 'k%d' % i), path, 'k%d.h' % i

    def source(self, path, includes):
        """includes: (text with mark)"""
        r = self.r
        out = []
        for i in includes:
            for _ in range(r.choice([0, 0, 1, 3])):
                out.append(r.choice(['', '// comment', '/* several\n lines */',
                                     '#include <vector>', 'int x;', '\t',
                                     '// caf\xe9 "', 'const char *s = "a";',
                                     '/* \xff */', '#ifdef X', '\r']))
            out.append(r.choice(['#include "%s"', '#include "%s"',
                                 '  #include   "%s"', '#  include "%s" // why',
                                 '\t#include\t"%s"\r', '#include"%s"']) % i)
        out.append(r.choice(['', 'int y;', '// "', '\n\n']))
        self.files[path] = r.choice(['', '\n', '\r\n', '// Copyright\n']) + \
            '\n'.join(out) + r.choice(['', '\n'])

    def found(self, mark, header, providers):
        """Providers of a header are told in the most verbose output."""
        self.expect(mark, 3, ['#include "%s"' % header], 'provider header')
        for p in providers:
            self.expect(mark, 3, ['| ', p], 'provider')

    def user(self, pkg, includes, deps=(), rule='cc_library', **more):
        """A target with one source. -> (label, mark of name, of source)"""
        i = self.uid()
        mn, name = self.mark('u%d' % i)
        ms, src = self.mark('u%d.cc' % i)
        self.source(os.path.join(pkg, 'u%d.cc' % i), includes)
        srcs = [self.lit(src)]
        for k in range(self.r.choice([0, 0, 1, 2])):
            # Others that are fine.
            other = 'u%dw%d.%s' % (i, k, self.r.choice(['cc', 'h', 'inc']))
            self.source(os.path.join(pkg, other), [])
            srcs.insert(self.r.randrange(len(srcs) + 1), self.lit(other))
        self.target(pkg, rule, self.lit(name), srcs=srcs,
                    **dict(dict(deps=list(deps)) if deps else {}, **more))
        return self.label(pkg, 'u%d' % i), mn, ms

    def pkg(self):
        return self.r.choice(['', 'a', 'a/b', 'lib', 'a/u', 'c'])

    # -- problems
    def clean(self):
        l, path, _ = self.library(self.pkg())
        m, inc = self.mark(path)
        p = self.pkg()
        self.user(p, [inc], [self.lit(l)])
        self.found(m, path, [l])

    def bad_label(self):
        r, p = self.r, self.pkg()
        i = self.uid()
        s = r.choice(['a:b%d:c', '//x%d:y:z', '//a//b%d:c', '//a//b%d',
                      '@r%d//a//b:c', ':a%d:', 'a%d::b']) % i
        k = r.randrange(8)
        m, text = self.mark(s)
        if k == 0:
            m, text = self.mark('"%s" + "%s"' % (s[:3], s[3:]))
            self.within.add(m)
        else:
            text = self.lit(text)
        deps = [text]
        l, path, _ = self.library(self.pkg())
        mi, inc = self.mark(path)
        deps.insert(r.randrange(2), self.lit(l))
        self.user(p, [inc], deps)
        plain = self.plain_lists and m not in self.within
        self.found(mi, path, [l])
        self.expect(m, 0, [s], 'label')
        # That looks at what is written.
        if plain: self.expect(m, 'canonicalize', [s], 'label')
        else: self.optional.add((m, 'canonicalize'))

    def missing_source(self):
        p, i = self.pkg(), self.uid()
        m, text = self.mark('gone%d.cc' % i)
        name = 'm%d' % i
        lab = self.label(p, name)
        attr = self.r.choice(['srcs', 'hdrs', 'textual_hdrs'])
        deps = {}
        if self.r.random() < .4:
            l, _, _ = self.library(self.pkg())
            md, d = self.mark(l)
            deps = dict(deps=[self.lit(d)])
            self.expect(md, 2, [l], 'unsure')
        mention = [os.path.join(p, 'gone%d.cc' % i), lab]
        if self.r.random() < .4:
            self.target(p, 'genrule', '"g%d"' % i, outs=['"gone%d.cc"' % i])
            mention.append(self.label(p, 'g%d' % i))
        self.target(p, self.r.choice(['cc_library', 'cc_binary', 'cc_test']),
                    '"%s"' % name, **{attr: [self.lit(text)]}, **deps)
        self.expect(m, 0, mention, 'source')

    def twice(self):
        p = self.pkg()
        l, path, _ = self.library(self.pkg())
        m, d = self.mark(l)
        mi, inc = self.mark(path)
        lab, _, _ = self.user(p, [inc], [self.lit(l), self.lit(d)])
        self.found(mi, path, [l])
        self.expect(m, 0, [l, lab], 'dependency twice')

    def two_libs(self):
        p, i = self.pkg(), self.uid()
        for n in 'ab':
            self.target(p, 'cc_library', '"t%d%s"' % (i, n),
                        hdrs=['"t%d.h"' % i],
                        visibility=['"//visibility:public"'])
        self.files[os.path.join(p, 't%d.h' % i)] = ''
        return [self.label(p, 't%d%s' % (i, n)) for n in 'ab'], \
            os.path.join(p, 't%d.h' % i)

    def same_header(self):
        """... of what is declared already"""
        libs, path = self.two_libs()
        mi, inc = self.mark(path)
        self.r.shuffle(libs)
        m, d = self.mark(libs[1])
        lab, _, _ = self.user(self.pkg(), [inc],
                              [self.lit(libs[0]), self.lit(d)])
        self.found(mi, path, libs)
        self.expect(m, 0, libs + [lab], 'same header')

    def choice(self):
        libs, path = self.two_libs()
        mi, inc = self.mark(path)
        lab, mn, _ = self.user(self.pkg(), [inc])
        self.found(mi, path, libs)
        self.expect(mn, 0, [lab], 'choice')
        for l in libs: self.plain.append((0, r'^\s+%s$' % re.escape(l), 'choice'))

    def testonly(self):
        l, path, _ = self.library(self.pkg(), testonly='True')
        mi, inc = self.mark(path)
        lab, mn, _ = self.user(self.pkg(), [inc],
                               rule=self.r.choice(['cc_library', 'cc_binary']))
        self.found(mi, path, [l])
        self.expect(mn, 0, [lab, l], 'testonly')

    def own_relative(self):
        p = self.r.choice(['a', 'a/b', 'lib', 'c'])
        h = 'r%d.h' % self.uid()
        self.files[os.path.join(p, h)] = ''
        m, inc = self.mark(h)
        attr = {'hdrs': [self.lit(h)]}
        lab, _, ms = self.user(p, [inc], **attr)
        # Its own, nothing to be said about that.

    def relative(self):
        p = self.r.choice(['a', 'a/b', 'lib', 'c'])
        l, path, h = self.library(p)
        m, inc = self.mark(h)
        lab, _, ms = self.user(p, [inc], [self.lit(l)])
        self.found(m, h, [l])
        self.expect(m, 0, [h], 'relative')
        self.expect(ms, 0, [lab], 'referenced by')

    def generated(self):
        p, i = self.pkg(), self.uid()
        self.target(p, 'genrule', '"g%d"' % i, outs=['"g%d.h"' % i])
        h = os.path.join(p, 'g%d.h' % i)
        m, inc = self.mark(h)
        lab, _, ms = self.user(self.pkg(), [inc])
        self.expect(m, 0, [h, self.label(p, 'g%d' % i)], 'generated')
        self.expect(ms, 0, [lab], 'referenced by')

    def unknown(self):
        h = self.r.choice(['nowhere%d.h', 'no/where%d.h', 'x/y/z%d.inc']) % \
            self.uid()
        many = self.r.choice([1, 1, 2, 3])
        incs = []
        for _ in range(many):
            m, inc = self.mark(h)
            incs.append(inc)
            self.expect(m, 1, [h], 'unknown')
        deps = []
        if self.r.random() < .5:
            l, _, _ = self.library(self.pkg())
            md, d = self.mark(l)
            deps = [self.lit(d)]
            self.expect(md, 2, [l], 'unsure')
        lab, _, ms = self.user(self.pkg(), incs, deps)
        self.expect(ms, 1, [lab], 'referenced by')

    def shared(self):
        """Source of two targets: about both."""
        p, i = self.r.choice(['a', 'a/b', 'lib', 'c']), self.uid()
        h = 'nowhere%d.h' % i
        m, inc = self.mark(h)
        l, path, rel = self.library(p)
        mr, relative = self.mark(rel)
        self.source(os.path.join(p, 's%d.cc' % i), [inc, relative])
        for n in 'ab':
            ms, src = self.mark('s%d.cc' % i)
            self.target(p, 'cc_library', '"s%d%s"' % (i, n),
                        srcs=[self.lit(src)], deps=[self.lit(l)])
            self.expect(m, 1, [h], 'unknown')
            self.expect(mr, 0, [rel], 'relative')
            self.found(mr, rel, [l])
            self.expect(ms, 0, [self.label(p, 's%d%s' % (i, n))],
                        'referenced by')

    def in_bin(self):
        """A generated source: only what is not known there."""
        p, i = self.r.choice(['a', 'a/b', 'lib', 'c']), self.uid()
        h = 'nowhere%d.h' % i
        m, inc = self.mark(h)
        l, path, rel = self.library(p)
        mr, relative = self.mark(rel)
        self.source(os.path.join('bazel-bin', p, 's%d.cc' % i), [relative, inc])
        ms, src = self.mark('s%d.cc' % i)
        self.target(p, 'genrule', '"g%d"' % i, outs=['"s%d.cc"' % i])
        self.target(p, 'cc_library', '"s%d"' % i, srcs=[self.lit(src)],
                    deps=[self.lit(l)])
        self.expect(m, 1, [h], 'unknown')
        self.found(mr, rel, [l])
        self.expect(ms, 1, [self.label(p, 's%d' % i)], 'referenced by')

    def outs_twice(self):
        p, i = self.pkg(), self.uid()
        names = ['g%da' % i, 'g%db' % i]
        m, o = self.mark('o%d.x' % i)
        self.target(p, 'genrule', self.lit(names[0]),
                    outs=[self.lit('o%d.x' % i), self.lit('q%d' % i)])
        plain = self.plain_lists
        self.target(p, 'genrule', self.lit(names[1]), outs=[self.lit(o)])
        mention = [os.path.join(p, 'o%d.x' % i)] + [self.label(p, n)
                                                    for n in names]
        self.expect(m, 0, mention, 'generated twice')
        if plain and self.plain_lists:
            self.expect(m, 'genrule-outputs', mention, 'generated twice')
        else: self.optional.add((m, 'genrule-outputs'))

    def longer(self):
        """Known with a different prefix"""
        l, path, _ = self.library(self.r.choice(['a', 'a/b', 'lib', 'c']))
        h = self.r.choice(['src/', 'x/y/']) + path
        m, inc = self.mark(h)
        self.user(self.pkg(), [inc], [self.lit(l)])
        self.found(m, h, [l])
        self.expect(m, 2, [h, path], 'other path')

    def two_files(self):
        p = 'two%d' % self.uid()
        self.files[p + '/BUILD'] = 'X = 1\n'
        self.files[p + '/BUILD.bazel'] = 'X = 2\n'
        self.plain.append((0, r'%s/BUILD(\.bazel)?\b.*%s\b.*%s/BUILD(\.bazel)?$'
                           % (p, p, p), 'two BUILD files'))

    def syntax(self):
        r, p = self.r, 'bad%d' % self.uid()
        m, err = self.mark(r.choice('$?&^~`'))
        good = ['cc_library(name = "a")', 'X = [1, 2,\n 3]', '# comment', '',
                'L = [x for x in [1]]', '"""doc\n"""', 'f(a, b = {"c": 3})']
        bad = r.choice(['%s', 'cc_library(name = "x"%s)', 'Y = %s 3',
                        'Y = [1,\n\n  %s]', 'f(%s)', 'f(a, %s b)', 'Z = 1 + %s',
                        'Z = {"a": %s}', 'Z = {"a" %s 3}', 'Z = [x for %s in y]',
                        'Z = [\n"a",\n"b"%s]', 'x = y[%s]', 'foo.%s', '(%s)',
                        'Z = not %s', 'A = B if %s else C']) % err
        pre = [r.choice(good) for _ in range(r.choice([0, 0, 1, 3]))]
        post = [r.choice(good) for _ in range(r.choice([0, 1, 2]))]
        f = p + r.choice(['/BUILD', '/BUILD.bazel'])
        self.files[f] = '\n'.join(pre + [bad] + post) + '\n'
        self.broken[f] = m

    def workspace(self):
        if 'WORKSPACE' in self.files: return
        for f, rule in (('WORKSPACE', 'http_archive'),
                        ('MODULE.bazel', 'bazel_dep')):
            out = [self.pad()]
            for _ in range(self.r.choice([1, 2])):
                n = 'ext%d' % self.uid()
                m, t = self.mark(n)
                more = ', version = "1.0"' if rule == 'bazel_dep' else \
                    ', urls = ["x"]'
                out.append('%s(name = %s%s)\n' % (rule, self.lit(t), more))
                out.append(self.pad())
                for cmd in ('workspace', 'canonicalize', 'genrule-outputs'):
                    self.expect(m, cmd, [n], 'module')
                self.expect(m, 0, [n], 'module')
            self.files[f] = ''.join(out)

    KINDS = ('clean', 'bad_label', 'missing_source', 'twice', 'same_header',
             'choice', 'testonly', 'own_relative', 'relative', 'generated',
             'unknown', 'shared', 'in_bin', 'outs_twice', 'longer', 'two_files', 'syntax',
             'workspace')

    def write(self):
        """-> {mark: (file, first line, col, last line, col)}, files"""
        for p, statements in self.build.items():
            text = ''.join(self.pad() + s + '\n' for s in statements)
            # Names of files in packages can be anything, one of the two.
            self.files[os.path.join(p, self.r.choice(
                ['BUILD', 'BUILD', 'BUILD.bazel']))] = text
        self.files.setdefault('MODULE.bazel', '')
        at, files = {}, {}
        for f, text in self.files.items():
            out, pos = '', 0
            for m in MARK.finditer(text):
                out += text[pos:m.start()]
                start = len(out)
                out += m[2]
                pos = m.end()
                at[int(m[1])] = (f, start, len(out))
            out += text[pos:]
            assert '\x01' not in out
            files[f] = out
        where = {}
        for k, (f, a, b) in at.items():
            t = files[f]
            def lc(x): return (t.count('\n', 0, x),
                               x - (t.rfind('\n', 0, x) + 1))
            where[k] = (f,) + lc(a) + lc(b)
        return where, files


def rng(m):
    """-> 0-based, exclusive end"""
    sl, sc = int(m[2]) - 1, int(m[3]) - 1
    if m[4]: return (sl, sc, sl, int(m[4]))
    if m[5]: return (sl, sc, int(m[5]) - 1, int(m[6]))
    return (sl, sc, sl, sc + 1)


def case(bant, seed):
    o = Out()
    c = Case(seed)
    kinds = [c.r.choice(Case.KINDS)
             for _ in range(c.r.choice([0, 1, 2, 3, 6, 10]))]
    for _ in range(c.r.choice([0, 1, 3])): c.clean()
    for k in kinds: getattr(c, k)()
    if not c.build: c.clean()
    where, files = c.write()
    with Scratch() as d:
        write_tree(d, {k: v.encode('latin-1') for k, v in files.items()})
        for cmd, verbose in (('dwyu', 0), ('dwyu', c.r.choice([1, 2, 3])),
                             ('canonicalize', 0), ('genrule-outputs', 0),
                             (c.r.choice(['workspace', 'dwyu']), 'q')):
            v = 0 if verbose == 'q' else verbose
            args = ['-q'] if verbose == 'q' else ['-v'] * v
            res = run2([bant] + args + [cmd, '//...'], cwd=d, timeout=60)
            data = dict(files=files, args=args + [cmd])
            if res.crashed or res.timed_out:
                o.bad('crash ' + res.crash_key(),
                      res.err[-500:].decode('latin-1'), data)
                continue
            judge(o, c, where, cmd, verbose, v, res, data)
            o.evaluations += 1
            o.sigs.add(sig([sorted(files.items()), cmd, verbose]))
    if kinds: o.sample('%s: %d to be named' % (' '.join(kinds), len(c.want)))
    return o


def judge(o, c, where, cmd, verbose, v, res, data):
    def bad(key, msg):
        o.bad(key, '%s %s: %s' % (cmd, verbose, msg), data)
    wanted = {}
    for mark, when, mention, kind, times in c.want:
        if verbose == 'q': continue
        if (when if isinstance(when, str) else 'dwyu') != cmd: continue
        if not isinstance(when, str) and v < when: continue
        wanted.setdefault(where[mark] + (mark in c.within,), []).append(
            (mention, kind))
    err = {}
    for f, mark in c.broken.items():
        if verbose == 'q': continue
        err[f] = where[mark]
    first_error = {}
    rest = []
    for line in res.err.split(b'\n'):
        m = LOCATED.match(line)
        if not m:
            rest.append(line.decode('latin-1'))
            continue
        f = os.path.normpath(m[1].decode('latin-1'))
        at = rng(m)
        text = line[m.end():].decode('latin-1')
        if f in err:
            o.count('errors')
            if f not in first_error:
                first_error[f] = at
                if at != err[f][1:]:
                    bad('place of syntax error', '%r, but it is at %r' % (
                        line, err[f]))
            elif at[:2] < err[f][1:3]:
                bad('error before the first one', repr(line))
            continue
        for key, todo in wanted.items():
            if key[0] != f: continue
            if key[5]:
                if not (key[1:3] <= at[:2] and at[2:] <= key[3:5]): continue
            elif key[1:5] != at: continue
            hit = [t for t in todo if all(x in text for x in t[0])]
            if hit:
                # The one with the most to be mentioned
                t = max(hit, key=lambda t: (len(t[0]), sum(map(len, t[0]))))
                todo.remove(t)
                o.count(t[1].replace(' ', '_'))
                break
        else:
            if not any((f,) + at == where[m] and x == cmd
                       for m, x in c.optional):
                bad('unexpected diagnostic', repr(line))
    for key, todo in wanted.items():
        for mention, kind in todo:
            bad('not reported: ' + kind, '%r at %r\n%s' % (
                mention, key[:5], res.err.decode('latin-1')[-1500:]))
    for f in err:
        if f not in first_error:
            bad('not reported: syntax error', '%s %r' % (f, err[f]))
    for when, rx, kind in c.plain:
        if verbose == 'q' or v < when: continue
        if kind == 'choice' and cmd != 'dwyu': continue
        n = sum(1 for x in rest if re.search(rx, x))
        if n != 1:
            bad('reported %d times: %s' % (n, kind), '%s\n%s' % (
                rx, '\n'.join(rest)[-800:]))
        o.count(kind.replace(' ', '_'))
    if verbose == 'q' and res.err: bad('not quiet', repr(res.err[:200]))
    # Not mixed with the output
    for line in res.out.split(b'\n'):
        if LOCATED.match(line):
            bad('diagnostic in the output', repr(line))


def main():
    c = Check('C31', 'Random projects without any problem, and with up to ten '
              'of eighteen kinds of problems in BUILD files, sources and '
              'declarations of modules. Distinct: project, command and '
              'verbosity.', min_evaluations=1500, min_distinct=1500,
              assumptions=['Text of messages is free, but it has to mention '
                           'the labels and files involved'])
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(700, 40000))])
    c.finish()


main()
