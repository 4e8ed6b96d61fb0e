"""The lint cache: a scratch project, the stand-in for clang-tidy, an
independent model of what is to be reported and what has to be invoked."""
import os, random, re, shutil, signal, subprocess, time, zlib
from . import build, core

SOURCE_EXT = ('.cc', '.cpp', '.cxx', '.h', '.hpp', '.hxx', '.inl')
HEADER_EXT = ('.h', '.hpp', '.hxx', '.inl')
FLAGS = {
    'asan': ['-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer',
             '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all'],
    'tsan': ['-std=c++17', '-O1', '-g1', '-w', '-fsanitize=thread'],
}


def binaries(*variants):
    res = {}
    src = os.path.join(build.REPO, 'scripts', 'run-clang-tidy-cached.cc')
    for v in variants:
        res[v] = build.standalone(src, 'tidy-' + v, FLAGS[v])
    res['fake'] = build.standalone(
        os.path.join(build.VERIF, 'stubs', 'fake_tidy.cc'), 'fake-tidy',
        ['-std=c++17', '-O1', '-w'])
    return res


class Report:
    """What one run reported."""
    def __init__(self, r, detail, summary):
        self.r, self.detail, self.summary = r, detail, summary
        self.stdout = r.out.decode('latin-1')
        self.ok = not r.crashed and not r.timed_out and r.rc in (0, 1)


class Project:
    def __init__(self, base, bins, variant='asan', dirname='proj',
                 fake_dir=None, cache=None, execroot=None):
        self.base, self.bins, self.variant = base, bins, variant
        self.dir = os.path.join(base, dirname)
        self.fake = fake_dir or os.path.join(base, 'fake')
        self.cache = cache or os.path.join(base, 'cache')
        self.execroot = execroot if execroot is not None else \
            '/nowhere/execroot/_main'
        self.version = '1.0'
        self.args = []
        self.files = {}
        self.linked = ''
        self.keep_reports = False   # reports of runs before are there
        for d in (self.dir, self.fake, os.path.join(self.fake, 'raw'),
                  os.path.join(self.fake, 'bin'), self.cache,
                  os.path.join(self.dir, 'bant')):
            os.makedirs(d, exist_ok=True)
        self.found = None   # how tool and place are found, None: told
        for tool in ('lint', 'clang-tidy'):
            tool = os.path.join(self.fake, 'bin', tool)
            if not os.path.exists(tool):
                os.symlink(bins['fake'], tool)
        bazel = os.path.join(self.fake, 'bin', 'bazel')
        with open(bazel, 'w') as f:
            f.write('#!/bin/sh\n[ "$1 $2" = "info execution_root" ] && '
                    '[ -n "$FAKE_EXECROOT" ] && echo "$FAKE_EXECROOT"\n')
        os.chmod(bazel, 0o755)
        self.put('MODULE.bazel', 'module()\n')
        self.put('.clang-tidy', 'Checks: all\n')
        self.put('compile_commands.json', '[]\n')
        for f in ('MODULE.bazel', 'compile_commands.json'):
            os.utime(os.path.join(self.dir, f), (1e9, 1e9))
        self.db_time = 1e9

    # -- tree
    def put(self, name, content):
        real = name
        if self.linked and name.startswith('bant/'):
            h = zlib.crc32((self.linked + name).encode())
            if h % 6 == 0:          # some files are symbolic links
                real = 'linked/%08x' % h
                path = os.path.join(self.dir, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if not os.path.lexists(path):
                    os.symlink(os.path.relpath(
                        os.path.join(self.dir, real),
                        os.path.dirname(path)), path)
        core.write_tree(self.dir, {real: content})
        self.files[name] = content

    def rm(self, name):
        os.unlink(os.path.join(self.dir, name))
        del self.files[name]

    def touch(self, name):
        time.sleep(0.03)
        t = time.time()
        os.utime(os.path.join(self.dir, name), (t, t))
        self.db_time = t
        time.sleep(0.03)

    def ctl(self, lines):
        p = os.path.join(self.fake, 'ctl')
        if lines:
            with open(p, 'w', encoding='latin-1') as f:
                f.write('\n'.join(lines) + '\n')
        elif os.path.exists(p):
            os.unlink(p)

    def sources(self):
        return sorted(f for f in self.files if f.startswith('bant/') and
                      os.path.splitext(f)[1] in SOURCE_EXT)

    # -- running
    def env(self, cache=None):
        e = {'CLANG_TIDY': os.path.join(self.fake, 'bin', 'lint'),
             'CACHE_DIR': cache or self.cache, 'FAKE_DIR': self.fake,
             'FAKE_VERSION': self.version, 'FAKE_EXECROOT': self.execroot,
             'PATH': os.path.join(self.fake, 'bin') + ':/usr/bin:/bin'}
        if self.found:
            del e['CLANG_TIDY'], e['CACHE_DIR']
            e['HOME'] = e['TMPDIR'] = cache or self.cache
            if self.found == 'home':
                os.makedirs(e['HOME'] + '/.cache', exist_ok=True)
                e['TMPDIR'] = '/nonexistent'
        return e

    def start(self, cache=None, variant=None):
        p = subprocess.Popen([self.bins[variant or self.variant]] + self.args,
                             cwd=self.dir, env=core.env(self.env(cache)),
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        with open(os.path.join(self.fake, 'runpid'), 'w') as f:
            f.write(str(p.pid))
        return p

    def finish(self, p, timeout=120):
        try:
            out, err = p.communicate(timeout=timeout)
            r = core.Result(p.returncode, out, err, False)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            r = core.Result(p.returncode, out, err, True)
        return Report(r, self.slurp('bant_clang-tidy.out'),
                      self.slurp('bant_clang-tidy.summary'))

    def run(self, cache=None, variant=None):
        for n in ('bant_clang-tidy.out', 'bant_clang-tidy.summary'):
            p = os.path.join(self.dir, n)
            if os.path.islink(p) and not self.keep_reports:
                os.unlink(p)
        return self.finish(self.start(cache, variant))

    def slurp(self, name):
        try:
            with open(os.path.join(self.dir, name), 'rb') as f:
                return f.read().decode('latin-1')
        except OSError:
            return None

    def log(self):
        p = os.path.join(self.fake, 'log')
        if not os.path.exists(p):
            return []
        with open(p, encoding='latin-1') as f:
            lines = f.read().split('\n')[:-1]
        os.unlink(p)
        return [l.split(' ', 2) for l in lines]

    def wait_quiet(self):
        """Until tools that outlived a killed run are gone."""
        deadline = time.time() + 20
        log = []
        while True:
            log += self.log()
            pend = {}
            for what, pid, f in log:
                if what == 'start':
                    pend[pid] = f
                else:
                    pend.pop(pid, None)
            alive = []
            for pid in pend:
                try:
                    os.kill(int(pid), 0)
                    alive.append(pid)
                except ProcessLookupError:
                    pass
            if not alive or time.time() > deadline:
                return log
            time.sleep(0.01)

    # -- model of the tool
    def _prefix(self, style):
        return {'abs': self.dir + '/', 'exec': self.execroot + '/',
                'dot': './', 'absdot': self.dir + '/./'}.get(style, '')

    def disabled(self):
        d = {l[9:] for l in self.files['.clang-tidy'].split('\n')
             if l.startswith('Disable: ')}
        for a in self.args:
            if a.startswith('--checks='):
                d |= {c[1:] for c in a[9:].split(',') if c[:1] == '-'}
        return d

    def _findings(self, path, content, marker, fixed, dis, suffix=''):
        """-> [(check, canonical text)]"""
        out = []
        for n, l in enumerate(content.split('\n'), 1):
            m = re.search(r'// %s(DB)? (\S+) (\S+)(.*)' % marker, l)
            if not m or m.group(3) in dis or (m.group(1) and fixed):
                continue
            out.append((m.group(3), '%s:%d:1: warning:%s [%s]\n   %s\n' % (
                path, n, m.group(4) + suffix, m.group(3), l)))
        return out

    def direct_headers(self, path):
        """Resolved header -> what the tool sees; and all of same name."""
        res, same = {}, {}
        for l in self.files[path].split('\n'):
            m = re.search(r'#.*?include.*?"([^"]*)"', l)
            if not m:
                continue
            inc = m.group(1)
            for cand in (os.path.normpath(os.path.join(os.path.dirname(path),
                                                       inc)),
                         os.path.normpath(inc)):
                if cand in self.files:
                    p = os.path.join(os.path.dirname(path), inc) if \
                        cand == os.path.normpath(os.path.join(
                            os.path.dirname(path), inc)) else inc
                    res.setdefault(p, cand)
                    break
            b = os.path.basename(inc)
            for f in self.files:
                if f.startswith('bant/') and os.path.basename(f) == b and \
                   os.path.splitext(f)[1] in HEADER_EXT:
                    same[f] = self.files[f]
        return res, same

    def lint(self, path):
        """Expected findings of a source, [(check, text)]."""
        dis = self.disabled()
        db = self.files.get('compile_commands.json',
                            self.files.get('compile_flags.txt', ''))
        fixed = 'FIX' in db
        c = self.files[path]
        out = self._findings(path, c, 'LINT', fixed, dis)
        out += self._findings(path, c, 'LINTV', fixed, dis,
                              ' v' + self.version)
        for p, real in self.direct_headers(path)[0].items():
            out += self._findings(p, self.files[real], 'LINTH', fixed, dis)
        return out

    def state(self, path):
        """(precise, sloppy): what the result depends on; the latter includes
        all headers of the same name, as names are resolved sloppily."""
        cfg = (self.version, tuple(self.args), self.files['.clang-tidy'])
        res, same = self.direct_headers(path)
        return ((cfg, path, self.files[path],
                 tuple(sorted((p, self.files[q]) for p, q in res.items()))),
                (cfg, path, self.files[path], tuple(sorted(same.items()))))


def expected_report(lints):
    """{path: [(check, text)]} -> ({path: block}, {check: count})"""
    blocks, counts = {}, {}
    for path, fs in lints.items():
        if fs:
            blocks[path] = path + ':\n' + ''.join(t for _, t in fs)
        for c, _ in fs:
            counts['[%s]' % c] = counts.get('[%s]' % c, 0) + 1
    return blocks, counts


def compare_report(rep, blocks, counts, what=''):
    """-> list of (key, message)"""
    bad = []
    r = rep.r
    if r.timed_out:
        return [('hang', 'run does not terminate')]
    if not rep.ok:
        return [('crash ' + r.crash_key(),
                 'exit %d: %s' % (r.rc, r.err[-1500:].decode('latin-1')))]
    if rep.detail is None or rep.summary is None:
        return [('no report', 'report files are missing')]
    rest, todo = rep.detail, dict(blocks)
    while rest:
        p = next((p for p in todo if rest.startswith(todo[p])), None)
        if p is None:
            bad.append(('detail', 'unexpected in report: %r; still expected: '
                        '%r' % (rest[:400], sorted(todo.items())[:3])))
            break
        rest = rest[len(todo[p]):]
        del todo[p]
    if not bad and todo:
        bad.append(('detail', 'missing in report: %r' %
                    sorted(todo.values())[:3]))
    if rep.stdout != rep.summary:
        bad.append(('summary', 'printed %r but summary file is %r' % (
            rep.stdout[:300], rep.summary[:300])))
    got, order = {}, []
    for l in rep.stdout.split('\n')[:-1]:
        m = re.fullmatch(r' *(\d+) (\[.*\])', l)
        if not m or m.group(2) in got:
            bad.append(('summary', 'line %r in %r' % (l, rep.stdout[:300])))
            break
        got[m.group(2)] = int(m.group(1))
        order.append(int(m.group(1)))
    else:
        if got != counts:
            bad.append(('count', 'summary %r, expected %r' % (got, counts)))
        if order != sorted(order, reverse=True):
            bad.append(('order', 'summary not ordered by count: %r' % order))
    want_rc = 1 if counts else 0
    # Is output without a named finding one ? Could be seen either way.
    if r.rc != want_rc and (counts or not blocks):
        bad.append(('exit code', 'exit code %d, findings: %d kinds' % (
            r.rc, len(counts))))
    return bad


# -- generating projects and histories
CHECKS = ['bugprone-foo', 'cert-err58-cpp', 'modernize-use-nullptr',
          'clang-analyzer-core.NullDereference', 'hicpp-move-const-arg,'
          'performance-move-const-arg', 'clang-diagnostic-c++20-compat',
          'abseil-x1', 'llvm-header_guard']
DIRS = ['bant/', 'bant/', 'bant/util/', 'bant/x/y/', 'bant/c++/']
STYLES = ['rel', 'rel', 'abs', 'exec', 'dot', 'absdot']
NAMES = ['a', 'b', 'foo', 'bar', 'foo_test', 'x-y', 'it\'s', 'sp ace', 'foo.pb']


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.serial = 0

    def path(self, ext=None):
        r = self.r
        return r.choice(DIRS) + r.choice(NAMES) + (ext or r.choice(
            ['.cc', '.cc', '.h', '.h', '.cpp', '.hpp', '.inl', '.cxx', '.hxx',
             '.txt', '.c', '.inc']))

    def include(self, proj, path):
        r = self.r
        hs = [f for f in proj.files if os.path.splitext(f)[1] in HEADER_EXT]
        if not hs:
            return ''
        h = r.choice(hs)
        if r.random() < .15 and path.endswith('.h'):
            h = path
        k = r.randrange(4)
        if k < 2:
            n = h
        elif k == 2:
            n = os.path.relpath(h, os.path.dirname(path))
        else:
            n = h if os.path.dirname(h) != os.path.dirname(path) else \
                os.path.basename(h)
        return r.choice(['#include "%s"', '#include "%s"', '# include "%s"',
                         '  #include "%s"  // why', '#include"%s"',
                         '#include   "%s"']) % n

    def content(self, proj, path):
        r = self.r
        self.serial += 1
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 9])):
            inc = self.include(proj, path)
            if inc:
                out.append(inc)
                if r.random() < .1:
                    out.append(inc)
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            out.append('int x%d;  // %s %s %s msg %d' % (
                r.randrange(9), r.choice(['LINT', 'LINT', 'LINTH', 'LINTH',
                                          'LINTV', 'LINTDB']),
                r.choice(STYLES), r.choice(CHECKS), self.serial))
        for _ in range(r.randrange(3)):
            out.append(r.choice(['int f();', '#include <vector>', 'y[i]',
                                 '// [bugprone-foo]', '']))
        r.shuffle(out)
        if r.random() < .08:  # beyond any buffer
            out.insert(r.randrange(len(out) + 1), '\n'.join(
                '// padding %d' % r.randrange(10**6)
                for _ in range(r.choice([300, 1200]))))
        if r.random() < .04:
            out.insert(0, 'char c = \'\0\';')
        return '\n'.join(out) + r.choice(['\n', '\n', ''])

    def populate(self, proj, n):
        for _ in range(n):
            p = self.path()
            proj.put(p, self.content(proj, p))

    def edit(self, proj, past):
        """One random change. -> description"""
        r = self.r
        srcs = proj.sources()
        hdrs = [s for s in srcs if os.path.splitext(s)[1] in HEADER_EXT]
        k = r.randrange(17)
        if k < 3 and srcs:
            p = r.choice(srcs)
            past.setdefault(p, []).append(proj.files[p])
            proj.put(p, self.content(proj, p))
            return 'edit ' + p
        if k < 6 and hdrs:
            # Prefer a header that is included by something.
            used = [c for s in srcs for c in proj.direct_headers(s)[0].values()]
            p = r.choice(used or hdrs)
            past.setdefault(p, []).append(proj.files[p])
            if r.random() < .5:
                proj.put(p, proj.files[p] + '\nint h;  // LINTH %s %s m%d\n' % (
                    r.choice(STYLES), r.choice(CHECKS), r.randrange(1000)))
            else:
                proj.put(p, self.content(proj, p))
            return 'edit header ' + p
        if k == 6:
            p = self.path()
            if p not in proj.files:
                proj.put(p, self.content(proj, p))
            return 'add ' + p
        if k == 7 and len(srcs) > 2:
            p = r.choice(srcs)
            past.setdefault(p, []).append(proj.files[p])
            proj.rm(p)
            return 'remove ' + p
        if k == 8 and len(srcs) > 1:
            p, q = r.choice(srcs), self.path()
            if q not in proj.files:
                c = proj.files[p]
                proj.rm(p)
                proj.put(q, c)
            return 'rename %s %s' % (p, q)
        if k == 9 and past:
            p = r.choice(sorted(past))
            proj.put(p, r.choice(past[p]))
            return 'revert ' + p
        if k == 10 and len(srcs) > 1:
            p, q = r.sample(srcs, 2)
            a, b = proj.files[p], proj.files[q]
            proj.put(p, b)
            proj.put(q, a)
            return 'swap %s %s' % (p, q)
        if k == 11:
            proj.put('.clang-tidy', 'Checks: all\n' + ''.join(
                'Disable: %s\n' % c for c in CHECKS if r.random() < .25))
            return 'config'
        if k == 12:
            proj.version = r.choice(['1.0', '1.1', '1.0.1', '2.0', '2.1'])
            return 'version ' + proj.version
        if k == 13:
            proj.args = r.choice([[], ['--checks=-%s' % r.choice(CHECKS)],
                                  ['--fix'], ["--x='q'", '--checks=-abseil-x1'],
                                  ['a b'], ['a', 'b']])
            return 'args %r' % proj.args
        if k == 14:
            f = r.choice(['MODULE.bazel', 'compile_commands.json'])
            proj.touch(f)
            return 'touch ' + f
        if k == 15 and 'FIX' not in proj.files['compile_commands.json']:
            proj.put('compile_commands.json', '[] FIX\n')
            proj.touch('compile_commands.json')
            return 'fix build'
        if k == 16 and srcs:
            p, q = r.choice(srcs), self.path()
            if q not in proj.files:
                proj.put(q, proj.files[p])
            return 'copy %s %s' % (p, q)
        return 'nothing'
