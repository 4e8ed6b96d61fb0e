"""C29: projects in a state nobody thought of. Directory trees, sources and
configuration files are damaged, hidden, linked in circles, oddly named, change
while they are read, or the file system fails; every command still ends,
cleanly, and says what it could not read."""
import json, os, random, shutil, signal, socket, subprocess, sys
from common import *
import many_files
from vlib import chaos, gen_ws, lexgen

COMMANDS = ['parse', 'print', 'list-packages', 'list-targets', 'workspace',
            'lib-headers', 'genrule-outputs', 'aliased-by', 'depends-on',
            'has-dependents', 'dwyu', 'canonicalize', 'compile-flags',
            'compilation-db']
FINDINGS = ('dwyu', 'canonicalize')
LIMIT = 40                                       # seconds; twice, then thrice

ODD = ['a b', "q'u", 'd"q', 'n\nl', '\xe4\xf6', '\xff\xfe', '-rf', '*', '?[',
       '\\', '~', '@x', 'x:y', '...', ' ', '%s%n', '$HOME', 'a' * 200,
       '\x1b[31m', 'BUILD', 'external', 'bazel-out', '_tmp', '.cache', '#x',
       '{}', 'a,b', ';', '|', '\t', '\x01', 'x..', '.x', 'a//b', '/']

SRC = ['a.cc', 'b.h', '../up.h', '/etc/passwd', '', '.', 'sub', 'a.cc/', 'x\\n',
       'no/such', ':gen', '//:gen', '@m1//:x', 'l' * 300 + '.cc', 'fifo',
       'dir.cc', 'loop.cc', '\xff.cc', '*', 'a.proto', 'a.pb.h', ' a.cc',
       './a.cc', 'sub//a.cc', 'a.cc:2', '//a.cc', '@', '%s.cc']


def source(r):
    """What may be in something that is called a source file."""
    k = r.randrange(16)
    inc = ['#include "a/b.h"', '#include <x.h>', '#include"y.h"',
           '  #  include  "z.h" // "w.h"', '#include "', '#include ""',
           '#include "/abs.h"', '#include "../up.h"', '#include "a\\\nb.h"',
           '#include "%s.h"' % ('x' * r.choice([1, 5000])), '#include',
           '#include "a b.h"', '#include "\xff.h"', '#include "a.pb.h"',
           '#include X', '#include "d/../e.h"', '#include "//x:y.h"',
           '#include "b.h', "#include 'b.h'", '#include "b.h">',
           '#import "b.h"', '#include_next "b.h"', '/* #include "c.h" */']
    lines = [r.choice(inc) for _ in range(r.choice([1, 5, 30]))]
    eol = r.choice(['\n', '\n', '\r\n', '\r', '\n\n', ''])
    if k == 0: return ''
    if k == 1: return r.randbytes(r.choice([1, 1000, 200000]))
    if k == 2: return '/*' + eol.join(lines)
    if k == 3: return 'R"x(' + eol.join(lines)
    if k == 4: return eol.join(lines) + '\\'
    if k == 5: return '#include "' + 'a' * r.choice([10, 300000])
    if k == 6: return '\0'.join(lines)
    if k == 7: return ('\n'.join(lines) + '\n') * 3000
    if k == 8: return '\xef\xbb\xbf' + eol.join(lines)
    if k == 9: return '\n'.join(lines).encode('utf-16')
    if k == 10: return '"' * r.choice([1, 2, 3, 10001]) + eol.join(lines)
    if k == 11: return '#' * r.choice([1, 100000])
    if k == 12: return '\n' * 200000
    if k == 13: return lexgen.soup(r, 200)
    if k == 14: return 'R"' + '(' * 3000 + eol.join(lines) + ')"' * 3000
    return eol.join(lines) + eol


def config(r):
    """.bazelrc"""
    k = r.randrange(8)
    if k == 0: return r.randbytes(r.choice([0, 10, 10000]))
    opts = ['--cxxopt=-DX="a b"', '--cxxopt', '--cxxopt=', '--copt=-I/x',
            "--cxxopt='-DY=1", '--cxxopt="', '--conlyopt=\\', '--cxxopt=\xff',
            '--cxxopt==', '-' * 4000, '--cxxopt=' + 'z' * 70000, '#', '\\',
            '--cxxopt=-std=c++20', '--cxxopt="a\\"b"', '--copt=%s']
    return r.choice(['\n', '\r\n', '\\\n']).join(
        r.choice(['build', 'build:x', 'common', '', ' build', 'BUILD', 'try-imp'
                  'ort %workspace%/x', 'build\t', '# build']) + r.choice(
            ['  ', ' ', '\t', '']) + ' '.join(
                r.choice(opts) for _ in range(r.randrange(4)))
        for _ in range(r.choice([1, 10, 300])))


def module(r):
    k = r.randrange(8)
    if k == 0: return ''
    if k == 1: return r.randbytes(500)
    if k == 2: return chaos.content(r)[1]
    names = ['m1', 'm1', 'm2', '', '..', '.', '*', '/', 'x/y', '\\n', '~', '[',
             'm1~1', '@m1', 'n' * 300, '\xff', 'a b', '../../..', '{a,b}', '?']
    out = ''
    for _ in range(r.choice([1, 4, 20])):
        out += '%s(%s)\n' % (r.choice(['bazel_dep', 'bazel_dep', 'module',
                                       'http_archive', 'archive_override']),
                             ', '.join('%s = %s' % (
                                 a, r.choice(['"%s"' % r.choice(names)] * 6 + [
                                     '1', 'None', '[]', 'x', '"%s" %% 1' % a]))
                                 for a in r.sample(
                                     ['name', 'version', 'repo_name',
                                      'urls'], r.choice([1, 2, 3]))))
    return out


class Tree:
    """The project on disk, and everything that can be done to it."""
    def __init__(self, r, base):
        self.r, self.base, self.log = r, base, []
        ws = gen_ws.random_graph(r, fancy=r.random() < .5,
                                 n=r.choice([3, 8, 15]))
        for t in ws.targets:
            if t.rule.startswith('cc_') and r.random() < .7:
                t.attrs['srcs'] = r.choice([
                    [r.choice(SRC) for _ in range(r.choice([1, 3]))],
                    ['a.cc', 'b.h'],
                    gen_ws.Raw('glob([%r])' % r.choice(
                        ['*', '**', '**/*.cc', '*/**', '**/**', '../*', '']))])
            if t.rule == 'cc_library' and r.random() < .5:
                t.attrs['hdrs'] = [r.choice(SRC + ['b.h', 'b.h'])]
        for p in ws.packages:
            if r.random() < .8: ws.files[p.dir + 'a.cc'] = ''
            if r.random() < .8: ws.files[p.dir + 'b.h'] = ''
            if r.random() < .1:
                p.head += chaos.content(r)[1] + '\n'
        self.ws = ws
        self.inside = os.path.realpath(os.fsencode(base)) + b'/'
        self.cwd = ws.write(base)
        self.real = os.fsencode(self.cwd)
        for p in ws.packages:
            if p.project: continue
            for f in ('a.cc', 'b.h'):
                if r.random() < .7: self.put(self.path(p.dir + f), source(r))

    def path(self, name):
        return os.path.join(self.real, name.encode('latin-1'))

    def say(self, what, *paths):
        self.log.append((what,) + tuple(
            p.decode('latin-1') if isinstance(p, bytes) else p for p in paths))

    def mine(self, p):
        """Nothing is done through links, so all of it in the scratch directory.
        """
        d = os.path.dirname(p.rstrip(b'/'))
        if os.path.realpath(d) != os.path.normpath(d) or \
           not (d + b'/').startswith(self.inside) or b'/../' in p + b'/':
            raise OSError('not to be touched: %r' % p)
        return p

    def put(self, p, content):
        if isinstance(content, str): content = content.encode('latin-1')
        try:
            os.makedirs(os.path.dirname(self.mine(p)), exist_ok=True)
            if os.path.lexists(self.mine(p)) and (
                    os.path.islink(p) or not os.path.isfile(p)):
                self.remove(p)
            with open(p, 'wb') as f: f.write(content)
        except OSError: pass

    def all(self, dirs=False):
        res = []
        for root, ds, fs in os.walk(self.real):
            res += [os.path.join(root, x) for x in (ds if dirs else fs)]
        if dirs: res = [p for p in res if not os.path.islink(p)]
        return sorted(res)

    def remove(self, p):
        self.mine(p)
        if os.path.islink(p) or not os.path.isdir(p): os.unlink(p)
        else: shutil.rmtree(p, ignore_errors=True)

    def important(self):
        return [self.path(x) for x in (
            'MODULE.bazel', 'WORKSPACE', 'BUILD', 'WORKSPACE.bzlmod',
            'BUILD.bazel', '.bazelrc', 'bazel-out', 'bazel-bin', 'external',
            'WORKSPACE.bazel')]

    def some(self):
        r = self.r
        files = self.all()
        builds = [f for f in files if os.path.basename(f).startswith(b'BUILD')]
        return r.choice(r.choice([files or self.important(),
                                  builds or self.important(),
                                  self.important()]))

    def replace(self):
        """A file becomes something else."""
        r = self.r
        p = self.some()
        try:
            if os.path.lexists(p): self.remove(p)
        except (OSError, RecursionError): return
        k = r.choice(['gone', 'directory', 'full directory', 'fifo', 'dangling',
                      'self', 'circle', 'device', 'socket', 'binary', 'empty',
                      'link to directory', 'link to file', 'chain', 'newline',
                      'big', 'to root', 'dots'])
        try:
            os.makedirs(os.path.dirname(self.mine(p)), exist_ok=True)
            if k == 'directory': os.mkdir(p)
            elif k == 'full directory':
                self.put(p + b'/BUILD', 'cc_library(name = "in")\n')
                self.put(p + b'/x/BUILD', 'cc_library(name = "in")\n')
            elif k == 'fifo': os.mkfifo(p)
            elif k == 'dangling': os.symlink(b'/nonexistent/x', p)
            elif k == 'self': os.symlink(os.path.basename(p), p)
            elif k == 'circle':
                os.symlink(os.path.basename(p) + b'2', p)
                os.symlink(os.path.basename(p), p + b'2')
            elif k == 'device':
                os.symlink(r.choice([b'/dev/null', b'/dev/tty', b'/dev/zero',
                                     b'/dev/full']), p)
            elif k == 'socket':
                d = os.open(os.path.dirname(p), os.O_RDONLY)
                try:
                    s = socket.socket(socket.AF_UNIX)
                    s.bind(b'/proc/self/fd/%d/' % d + os.path.basename(p))
                    s.close()
                finally: os.close(d)
            elif k == 'binary': self.put(p, r.randbytes(3000))
            elif k == 'empty': self.put(p, b'')
            elif k == 'newline': self.put(p, b'\n')
            elif k == 'big': self.put(p, b'x = 1\n' * 100000)
            elif k == 'link to directory': os.symlink(self.real, p)
            elif k == 'link to file':
                os.symlink(r.choice(self.all() or [b'x']), p)
            elif k == 'to root': os.symlink(b'/proc/self/root/dev/null', p)
            elif k == 'dots': os.symlink(b'./' * 200, p)
            elif k == 'chain':
                n = r.choice([3, 39, 45])
                for i in range(n):
                    os.symlink(b'%s.%d' % (os.path.basename(p), i + 1),
                               p + (b'.%d' % i if i else b''))
                self.put(p + b'.%d' % n, 'cc_library(name = "chained")\n')
        except (OSError, ValueError): pass
        self.say(k, p)

    def odd_names(self):
        r = self.r
        dirs = [self.real] + self.all(True)
        p = r.choice(dirs) + b'/' + r.choice(ODD).encode('latin-1')
        k = r.randrange(4)
        try:
            if k == 0: self.put(p, source(r))
            else:
                self.put(p + b'/' + r.choice([b'BUILD', b'BUILD.bazel']),
                         r.choice(['', chaos.content(r)[1],
                                   'cc_library(name = "odd", srcs = ["a.cc"])']
                                  ))
                self.put(p + b'/a.cc', source(r))
        except (OSError, ValueError): pass
        self.say('odd name', p)

    def links(self):
        r = self.r
        dirs = [self.real] + self.all(True)
        for _ in range(r.choice([1, 3])):
            a, b = r.choice(dirs), r.choice(dirs)
            name = a + b'/' + r.choice([b'link', b'up', b'x', b'external'])
            try: os.symlink(r.choice([b, b'..', b'.', b'../..', b'./././']),
                            self.mine(name))
            except OSError: continue
            self.say('link', name)

    def deep(self):
        r = self.r
        n = r.choice([50, 400, 1500])
        name = r.choice(['d', 'd' * 200])
        if len(name) * n > 20000: n = 20000 // len(name)
        here = os.open(self.real, os.O_RDONLY)
        try:
            for i in range(n):
                os.mkdir(name, dir_fd=here)
                nxt = os.open(name, os.O_RDONLY, dir_fd=here)
                os.close(here)
                here = nxt
                if r.random() < .05 or i == n - 1:
                    with open(os.open('BUILD', os.O_CREAT | os.O_WRONLY,
                                      dir_fd=here), 'w') as f:
                        f.write('cc_library(name = "deep", srcs = glob(["**"]'
                                '))\n')
        except OSError: pass
        finally: os.close(here)
        self.say('deep', '%s * %d' % (name[:2], n))

    def many(self):
        r = self.r
        p = r.choice([self.real] + self.all(True)) + b'/many'
        k = r.randrange(3)
        for i in range(r.choice([200, 2000])):
            if k == 0: self.put(p + b'/f%d.cc' % i, b'')
            elif k == 1: self.put(p + b'/d%d/BUILD' % i, b'')
            elif k == 2:
                try:
                    os.makedirs(self.mine(p), exist_ok=True)
                    os.symlink(b'..', self.mine(p + b'/l%d' % i))
                except OSError: pass
        self.say('many', p, str(k))

    def hidden(self):
        """No permission. (Seen by an unprivileged user, only.)"""
        r = self.r
        files = self.all(r.random() < .5)
        for p in r.sample(files, min(len(files), r.choice([1, 4]))):
            if os.path.islink(p): continue
            mode = r.choice([0, 0o100, 0o200, 0o300, 0o400, 0o600, 0o444])
            try: os.chmod(self.mine(p), mode)
            except OSError: continue
            self.say('mode %o' % mode, p)

    def settings(self):
        r = self.r
        k = r.randrange(3)
        if k == 0: self.put(self.path('.bazelrc'), config(r))
        elif k == 1:
            self.put(self.path(r.choice(['MODULE.bazel', 'WORKSPACE',
                                         'WORKSPACE.bazel'])), module(r))
        else:
            p = self.path('bazel-out')
            try:
                if os.path.lexists(self.mine(p)): self.remove(p)
                to = r.choice([b'.', b'..', b'../..', b'nowhere', b'bazel-out',
                               os.fsencode(self.base) + b'/base/a/b/c', b''])
                if to: os.symlink(to, p)
                else: os.mkdir(p)
            except OSError: pass
            self.say('bazel-out')
        self.say('settings', str(k))

    def externals(self):
        r = self.r
        p = os.fsencode(self.base) + b'/base/external/'
        try:
            os.makedirs(p, exist_ok=True)
            for _ in range(r.choice([1, 4])):
                n = p + r.choice(['m1', 'm1~1', 'm1~', '~', '~~', 'm1~1~x',
                                  '\xff', 'a b', '*', 'm2', 'm1~override',
                                  'x' * 250, '[', '-x']).encode('latin-1')
                self.mine(n)
                k = r.randrange(5)
                if k == 0: self.put(n, b'')
                elif k == 1: os.symlink(b'.', n)
                elif k == 2: os.symlink(self.real, n)
                elif k == 3: os.symlink(b'nowhere', n)
                else:
                    self.put(n + b'/BUILD', chaos.content(r)[1])
                    self.put(n + b'/sub/BUILD', 'cc_library(name = "x")\n')
        except OSError: pass
        self.say('externals')

    def damage(self):
        r = self.r
        for _ in range(r.choice([1, 2, 4, 8])):
            r.choice([self.replace] * 6 + [self.odd_names] * 3 + [
                self.links] * 3 + [self.deep, self.many] + [self.settings] * 3
                     + [self.externals] * 2)()


def walk(cwd):
    """-> paths of what should be taken as BUILD files, as printed."""
    res, todo = [], [(cwd, b'.')]
    while todo:
        d, rel = todo.pop()
        try: entries = os.listdir(d)
        except OSError: continue         # also, where paths get too long
        for e in entries:
            p = d + b'/' + e
            if os.path.isdir(p):
                if not os.path.islink(p) and e not in (b'_tmp', b'.cache',
                                                       b'.git'):
                    todo.append((p, rel + b'/' + e))
            elif e in (b'BUILD', b'BUILD.bazel'):
                res.append(rel + b'/' + e)
    return res


PATTERNS = ['//...', '//...', '...', '//a/...', '//a', '//:all', ':all',
            '//a:all', '@m1//...', '@m1//sub', '//a:*', '@nope//...', '//x y',
            '//..', '//../...', '/', ':', '//\xff', '//' + 'x/' * 900,
            '//a/b/c:d', '@//...', '@@m1//...', '//a:...', '//./a', '//a//b',
            '//*', '//[', '//a\n', '//bazel-out/...', '//external/...']
OPTIONS = [[], [], [], ['-r'], ['-e'], ['-v'], ['-fjson'], ['-r', '-e'],
           ['-vvv'], ['-k'], ['-g', 'a'], ['-E'], ['-fcsv', '-r'], ['-q'],
           ['-r1'], ['-fs'], ['-fp'], ['-g', 'a|b', '-i', '-e'], ['-fgraph']]


def judge(o, res, cmd, args, data, faults=False):
    """What holds for any run of any command."""
    o.evaluations += 1
    where = ' '.join(args)
    if res.timed_out:
        o.bad('does not end: ' + cmd, where, data)
        return False
    if res.crashed:
        o.bad('crash ' + res.crash_key(), '%s: exit %d %s' % (
            where, res.rc, res.err[-2500:].decode('latin-1')), data)
        return False
    if res.rc not in (0, 1, 2) and not (res.rc == 3 and cmd in FINDINGS):
        o.bad('exit code', '%s: %d' % (where, res.rc), data)
        return False
    if res.rc in (1, 2) and not res.err.strip() and '-q' not in args:
        o.bad('fails without a message', '%s: %d' % (where, res.rc), data)
        return False
    if res.rc == 3 and not res.out:
        o.bad('findings without any', where, data)
    return True


def as_user(binary, d):
    """Command prefix to run as somebody without privileges, or None."""
    if os.getuid() != 0: return []
    try:
        ok = subprocess.run(['/bin/true'], user=65534, group=65534,
                            extra_groups=[]).returncode == 0
    except (OSError, subprocess.SubprocessError): ok = False
    return ok


def run_user(cmd, **kw):
    """core.run2, as user nobody."""
    code = ('import os,sys\nos.setgroups([])\nos.setgid(65534)\n'
            'os.setuid(65534)\nos.execv(sys.argv[1], sys.argv[1:])')
    return run2([sys.executable, '-I', '-S', '-c', code] + cmd, **kw)


def layouts(bant, home, seed):
    o = Out()
    r = random.Random(seed)
    with Scratch() as d:
        os.chmod(d, 0o755)
        t = Tree(r, d)
        t.damage()
        runner, who = run2, 'root'
        if home and r.random() < .4:
            t.hidden()
            runner, who = run_user, 'user'
        data = {'log': t.log, 'who': who, 'seed': seed}
        for kind in t.log: o.count('did ' + kind[0].split(' ')[0])
        builds = walk(t.real)
        for cmd in r.sample(COMMANDS, 7):
            opts = r.choice(OPTIONS)
            pat = r.choice(PATTERNS if r.random() < .4 else ['//...'])
            args = opts + [cmd, pat]
            res = runner([home if who == 'user' else bant] + [
                a.encode('latin-1') for a in args], cwd=t.cwd, timeout=LIMIT)
            if not judge(o, res, cmd, args, data): return o
            o.count('runs_as_' + who)
            o.sigs.add(sig((cmd, sorted({k[0] for k in t.log}), res.rc,
                            len(res.err) > 0, len(res.out) > 0)))
        # Nothing is lost without a word: either known, or complained about.
        if who == 'root':
            res = runner([bant, 'list-packages', '//...', '-fjson'], cwd=t.cwd,
                         timeout=LIMIT)
            if not judge(o, res, 'list-packages', ['list-packages'], data):
                return o
            if res.rc == 0:
                listed = set()
                for line in res.out.splitlines():
                    try: row = json.loads(line.decode('latin-1'))
                    except ValueError: continue       # see C19
                    listed.add(list(row.values())[0].encode('latin-1'))
                for b in builds:
                    o.count('build_files')
                    if b in listed or b[2:] in listed: continue
                    o.count('build_files_complained_about')
                    if b not in res.err and b[2:] not in res.err:
                        o.bad('BUILD file lost without a word', '%r of %r' % (
                            b, sorted(listed)[:20]), data)
                        break
    o.sample(repr(t.log)[:200])
    return o


def faulty(bant, plain, lib, seed):
    """The file system fails, or is slow to answer."""
    o = Out()
    r = random.Random(seed)
    with Scratch() as d:
        t = Tree(r, d)
        if r.random() < .3: t.damage()
        data = {'log': t.log, 'seed': seed}
        for i in range(8):
            cmd = r.choice(COMMANDS)
            args = r.choice(OPTIONS) + [cmd, '//...']
            binary = r.choice([bant, bant, plain])
            kinds = r.choice(['oredntagu', 'o', 'r', 'e', 'd', 'n', 't', 'a',
                              'g', 'su', 's', 'u', 'ors'])
            legal = not set(kinds) - set('su')
            log = d + '/log%d' % i
            e = {'LD_PRELOAD': lib, 'FAULT_DIR': d, 'FAULT_KINDS': kinds,
                 'FAULT_RATE': str(r.choice([10, 100, 400, 1000])),
                 'FAULT_SEED': str(r.getrandbits(30)), 'FAULT_LOG': log,
                 'ASAN_OPTIONS': core.SAN_ENV['ASAN_OPTIONS'] +
                 ':verify_asan_link_order=0'}
            cl = [a.encode('latin-1') for a in args]
            res = run2([binary] + cl, cwd=t.cwd, timeout=LIMIT, extra_env=e)
            data['fault'] = {k: e[k] for k in e if k.startswith('FAULT')}
            if not judge(o, res, cmd, args, data): return o
            try:
                with open(log) as f: happened = f.read().split()
            except OSError:
                o.inconclusive.append('HARNESS no log of faults')
                continue
            for h in happened:
                if h != '.': o.count('fault_' + h[0], int(h[1:]))
            o.sigs.add(sig((cmd, happened, res.rc)))
            if legal and r.random() < .7:
                want = run2([binary] + cl, cwd=t.cwd, timeout=LIMIT)
                o.count('no_difference')
                if (want.rc, want.out) != (res.rc, res.out):
                    o.bad('short reads or unknown file types matter',
                          '%s: %r instead of %r' % (
                              args, (res.rc, res.out[:300]),
                              (want.rc, want.out[:300])), data)
    return o


def moving(bant, seed):
    """The project changes while it is read."""
    o = Out()
    r = random.Random(seed)
    with Scratch() as d:
        t = Tree(r, d)
        data = {'log': t.log, 'seed': seed}
        code = '''
import os, random, sys, time
r = random.Random(%d)
names = sys.argv[1:]
for i in range(100000):
    p = r.choice(names)
    k = r.randrange(5)
    try:
        if k == 0: os.truncate(p, r.choice([0, 1, 5000]))
        elif k == 1:
            with open(p, 'ab') as f: f.write(b'cc_library(name = "n%%d", srcs = glob(["**"]))\\n' %% i)
            if os.path.getsize(p) > 30000: os.truncate(p, 0)
        elif k == 2:
            os.rename(p, p + '.x'); os.rename(p + '.x', p)
        elif k == 3:
            os.unlink(p); os.mkdir(p); os.rmdir(p); open(p, 'w').close()
        else:
            os.makedirs(p + 'd/BUILD.bazel', exist_ok=True)
            os.rmdir(p + 'd/BUILD.bazel'); os.rmdir(p + 'd')
    except OSError: pass
    if i %% 20 == 0: time.sleep(.0005)
''' % r.getrandbits(30)
        files = [p for p in t.all() if os.path.isfile(p) and
                 not os.path.islink(p)]
        files += [t.path('MODULE.bazel')] if r.random() < .2 else []
        files = [f for f in files if not f.endswith(b'MODULE.bazel')] or files
        p = subprocess.Popen([sys.executable, '-I', '-S', '-c', code] + files,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, env=core.env())
        try:
            for _ in range(25):
                cmd = r.choice(COMMANDS)
                args = r.choice(OPTIONS) + [cmd, '//...']
                res = run2([bant] + args, cwd=t.cwd, timeout=LIMIT)
                if not judge(o, res, cmd, args, data): break
                o.count('runs_while_changing')
                o.sigs.add(sig((cmd, res.rc, len(res.out), len(res.err))))
        finally:
            p.kill()
            p.wait()
    return o


def surroundings(bant, seed):
    """The process is started in an odd way."""
    import resource
    o = Out()
    r = random.Random(seed)
    with Scratch() as d:
        t = Tree(r, d)
        if r.random() < .3: t.damage()
        data = {'log': t.log, 'seed': seed}
        for _ in range(10):
            cmd = r.choice(COMMANDS)
            args = r.choice(OPTIONS) + [cmd, '//...']
            k = r.choice(['no descriptors', 'closed', 'pipe', 'directory gone',
                          'full', 'limit', 'readonly', 'output is input',
                          'long'])
            o.count(k.replace(' ', '_'))
            cwd, pre, out = t.cwd, None, subprocess.PIPE
            files = [0, 1, 2]
            if k == 'no descriptors':
                n = r.choice([4, 5, 6, 7])
                def pre():
                    resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
            elif k == 'closed':
                gone = r.choice([[0], [1], [0, 1], [0, 1, 2], [2], [1, 2]])
                def pre():
                    for f in gone: os.close(f)
            elif k == 'directory gone':
                cwd = d + '/gone'
                os.mkdir(cwd)
                def pre():
                    os.chdir(cwd)
                    os.rmdir(cwd)
            elif k == 'full': out = open('/dev/full', 'wb')
            elif k == 'readonly': out = open('/dev/null', 'rb')
            elif k == 'limit':
                def pre():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
                args = ['-o', d + '/out'] + args
            elif k == 'output is input':
                args = ['-o', r.choice([f for f in t.all() if os.path.isfile(f)
                                        and not os.path.islink(f)]
                                       or [b'x']).decode('latin-1')] + args
            elif k == 'long':
                args = args + ['-g', '(' * r.choice([10, 900, 5000]) + 'a'] \
                    if r.random() < .5 else args[:-1] + ['//' + r.choice(
                        ['a/', '@', ':', '.', '*']) * 30000]
            p = subprocess.Popen(
                [bant] + [a.encode('latin-1') for a in args], cwd=cwd
                if k != 'directory gone' else None, preexec_fn=pre,
                stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE,
                env=core.env())
            if k == 'pipe': p.stdout.close()
            if out is not subprocess.PIPE: out.close()
            try:
                if k == 'pipe':
                    e, s = p.stderr.read(), b''
                    p.wait(timeout=LIMIT * 3)
                else: s, e = p.communicate(timeout=LIMIT * 3)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                o.bad('does not end: ' + cmd, '%s %s' % (k, args), data)
                return o
            res = core.Result(p.returncode, s or b'x', e or b'', False)
            o.evaluations += 1
            if k == 'pipe' and res.rc == -signal.SIGPIPE: continue
            if k in ('closed', 'no descriptors') and not e: res.err = b'?'
            if not judge(o, res, cmd, args, (k, data)): return o
            o.sigs.add(sig((k, cmd, res.rc, e[:60])))
    return o


def main():
    c = Check('C29', 'Random projects that are damaged on disk (files replaced '
              'by links, circles, fifos, devices, directories, garbage; odd '
              'names; deep and wide trees; unreadable for the user), read '
              'while the file system fails by injected faults, while they '
              'change, and in odd surroundings; all commands. Distinct: '
              'command, damage, kind of outcome.', min_evaluations=4000,
              min_distinct=1500,
              assumptions=['Files fit into memory'])
    bant = built(build.bant)
    plain = built(build.bant, 'plain')
    lib = built(build.preload, 'fs_faults')
    with Scratch() as d:
        home = None
        if as_user(bant, d):
            os.chmod(d, 0o755)
            home = d + '/bant'
            shutil.copy(bant, home)
            os.chmod(home, 0o755)
            res = run_user([home, '-V'])
            if res.rc != 0: home = None
        c.out.count('unprivileged', 1 if home else 0)
        n = c.n(1, 25)
        jobs = [(layouts, bant, home, s) for s in c.seeds(700 * n, 'l')] + \
            [(faulty, bant, plain, lib, s) for s in c.seeds(200 * n, 'f')] + \
            [(moving, bant, s) for s in c.seeds(16 * n, 'm')] + \
            [(surroundings, bant, s) for s in c.seeds(120 * n, 's')] + \
            [(many_files.case, bant, s, i % 2 == 1)
             for i, s in enumerate(c.seeds(4 * n, 'o'))]
        c.pool(_any, jobs)
        c.finish()


def _any(fn, *a):
    return fn(*a)


if __name__ == '__main__':
    main()
