"""C20: the contract of the command line, on the real binary."""
import itertools, os, pty, random, re, select, shutil, subprocess, time
from common import *
from vlib import gen_ws

COMMANDS = ['parse', 'print', 'list-packages', 'list-targets', 'workspace',
            'lib-headers', 'aliased-by', 'depends-on', 'has-dependents',
            'genrule-outputs', 'dwyu', 'compilation-db', 'compile-flags',
            'canonicalize']
NEED_PATTERN = ('print', 'dwyu', 'canonicalize')
FINDINGS = ('dwyu', 'canonicalize')

SMALL = {
    'MODULE.bazel': 'module(name = "m")\nbazel_dep(name = "ext")\n',
    'BUILD': 'cc_library(name = "top", srcs = ["top.cc"], hdrs = ["top.h"], '
             'deps = ["//a:a", "//a:b"])\n'
             'alias(name = "al", actual = "//a")\n'
             'genrule(name = "g", outs = ["g.h"])\n',
    'top.cc': '#include "a/b.h"\n', 'top.h': '',
    'a/BUILD': 'cc_library(name = "a", hdrs = ["a.h"], deps = ["@ext//x"])\n'
               'cc_library(name = "b", hdrs = ["b.h"], visibility = '
               '["//visibility:public"])\n',
    'a/a.h': '', 'a/b.h': '',
}


def small(d):
    write_tree(d, {'ws/' + k: v for k, v in SMALL.items()})
    write_tree(d, {'base/external/ext~/BUILD': ''})
    os.makedirs(d + '/base/execroot/_main/bazel-out')
    os.symlink(d + '/base/execroot/_main/bazel-out', d + '/ws/bazel-out')
    return d + '/ws'


def snapshot(d):
    """Everything below a directory"""
    res = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = os.path.join(root, f)
            st = os.lstat(p)
            res[os.path.relpath(p, d)] = (
                st.st_mode, st.st_mtime_ns if f in files else 0,
                open(p, 'rb').read() if os.path.isfile(p) else b'')
    return res


def names(bant):
    """Every prefix of a command, and what is none."""
    o = Out()
    with Scratch() as d:
        cwd = small(d)
        ref = {}
        for c in COMMANDS:
            r = run2([bant, c, '//...'], cwd=cwd)
            ref[c] = (r.rc, r.out)
            if r.crashed or r.rc not in (0, 3):
                o.bad('command refused', '%s: %d %r' % (c, r.rc, r.err[-300:]))
        if len({v for v in ref.values()}) != len(COMMANDS):
            o.inconclusive.append('HARNESS commands look alike: %r' % ref)
        todo = sorted({c[:i] for c in COMMANDS for i in range(len(c) + 1)})
        for c in COMMANDS:
            todo += [c + 'x', c + '-', c.upper(), c[1:], c[::-1], c + ' ',
                     ' ' + c, c[:2] + '*', c[:-1] + '~', c + '=', c + '\n']
            if '-' in c:
                todo += [c.replace('-', '_'), c.replace('-', ''),
                         c.split('-')[1]]
        todo += ['help', 'x', '~', 'a b', '\x01', '\xff', '0', '//...', ':all',
                 'zzz', 'aaa', 'list', 'lis', 'comp', 'q', '!' * 3000]
        for w in dict.fromkeys(todo):
            hits = [c for c in COMMANDS if c.startswith(w)]
            r = run2([bant, w.encode('latin-1'), '//...'], cwd=cwd)
            o.evaluations += 1
            o.sigs.add(sig(w))
            if len(hits) == 1:
                o.count('prefixes')
                if (r.rc, r.out) != ref[hits[0]]:
                    o.bad('prefix', '%r is not taken as %s: exit %d, %r' % (
                        w, hits[0], r.rc, r.out[:200]))
            else:
                o.count('ambiguous' if hits else 'unknown')
                if r.rc != 2 or r.out or not r.err.strip():
                    o.bad('unknown or ambiguous command', '%r: exit %d, %r %r'
                          % (w, r.rc, r.out[:200], r.err[:200]))
        o.sample('unambiguous: ' + ' '.join(w for w in todo if sum(
            c.startswith(w) for c in COMMANDS) == 1 and len(w) < 4))
    return o


def refused(bant):
    """What can't be done is reported as such."""
    o = Out()
    with Scratch() as d:
        cwd = small(d)
        write_tree(d, {'empty/x': '', 'ro/x': ''})
        full = '/dev/full'
        cases = [
            ([], 2), ([''], 2), (['-v'], 2), (['--'], 2), (['-r', '-k'], 2),
            (['-Z', 'print', '//...'], 1), (['print', '//...', '-Z'], 1),
            (['--verbose', 'print', '//...'], 1), (['-vZ', 'list-p'], 1),
            (['--help'], 1), (['-f'], 1), (['print', '//...', '-o'], 1),
            (['list-t', '-C'], 1), (['print', '//...', '-g'], 1),
            (['-f', 'xml', 'list-t'], 1), (['-fjsonx', 'list-t'], 1),
            (['list-t', '-f', 'JSON'], 1), (['-fz', 'list-t'], 1),
            (['-f', '', 'list-t'], 1), (['-f', ' csv', 'list-t'], 1),
            (['list-t', '-fjsom'], 1), (['-fcs-', 'list-t'], 1),
            (['-fplis-', 'list-t'], 1), (['-fcsv,', 'list-t'], 1),
            (['-C', d + '/nope', 'list-t'], 1),
            (['-C', cwd + '/BUILD', 'list-t'], 1),
            (['-C', '', 'list-t'], 1),
            (['-o', d + '/nope/x', 'list-t'], 1), (['-o', d, 'list-t'], 1),
            (['-o', cwd + '/BUILD/x', 'list-t'], 1),
            (['-o', '', 'list-t'], 1),
            (['-g', '(', 'print', '//...'], 1),
            (['-g', '*', 'print', '//...'], 1),
            (['-g', '[a', 'print', '//a/...', '-i'], 1),
            (['-g', 'a\\', 'print', '//...'], 1),
            (['print', '//...', '//a'], 1), (['list-t', '//a', '//b', 'c'], 1),
            (['list-t', '//a:b:c'], None), (['list-t', '//a:'], None),
            (['print'], 1), (['dwyu'], 1), (['canonicalize'], 1),
            (['pr', '-g', 'a'], 1), (['-v', 'dw'], 1),
            (['-C', d + '/empty', 'list-t'], 1),
            (['-C', d + '/empty', 'print', '//...'], 1),
            (['-C', d + '/empty', 'workspace'], 1),
            (['-C', d + '/empty', 'dwyu', '//...'], 1),
            (['-C', d + '/empty', 'parse'], 1),
        ]
        for c in COMMANDS:
            if c != 'parse':
                cases.append((['-o', full, c, '//...'], 1))
            cases.append((['-C', d + '/empty', c, '//...'], 1))
            cases.append((['-Y', c, '//...'], 1))
            cases.append(([c, '//...', '//a/...'], 1))
        for line, rc in cases:
            for extra in ([], ['-v'], ['-q']):
                if line[:1] == ['--'] or not line: extra = []
                args = extra + line
                r = run2([bant] + args, cwd=cwd)
                o.evaluations += 1
                o.sigs.add(sig(args))
                if rc is None:      # either way, but consistently
                    if r.rc == 0 or r.crashed:
                        if r.crashed:
                            o.bad('crash', repr(args))
                        continue
                    rc2 = r.rc
                else:
                    rc2 = rc
                o.count('refused')
                if r.rc != rc2:
                    o.bad('exit code of refused request',
                          '%r: exit %d instead of %d' % (args, r.rc, rc2))
                # Quiet is about information, the usage message stays.
                if not r.err.strip() and '-q' not in args:
                    o.bad('refused without a message', repr(args))
                if r.out and full not in args:
                    o.bad('refused but output', '%r: %r' % (args, r.out[:200]))
        for line in (['-h'], ['-V'], ['-h', 'nonsense'], ['-v', '-h'],
                     ['list-t', '-h'], ['-V', 'print']):
            r = run2([bant] + line, cwd=cwd)
            o.evaluations += 1
            if r.rc != 0 or not r.err or r.out:
                o.bad('help or version', '%r: %d' % (line, r.rc))
        # Documented options are there.
        for line in (['-C', '.'], ['-q'], ['-o', '-'], ['-f', 'native'],
                     ['-f', 's-expr'], ['-f', 'plist'], ['-f', 'json'],
                     ['-f', 'csv'], ['-fs'], ['-fp'], ['-fj'], ['-fc'], ['-r'],
                     ['-r2'], ['-r0'], ['-v'], ['-E'], ['-e'], ['-g', 'a'],
                     ['-g', 'a', '-i'], ['-k'], ['-vv'], ['-vqke']):
            for c in COMMANDS:
                r = run2([bant] + line + [c, '//...'], cwd=cwd)
                o.evaluations += 1
                o.count('documented_options')
                if r.rc not in ((0, 3) if c in FINDINGS else (0,)):
                    o.bad('documented option refused', '%r %s: %d %r' % (
                        line, c, r.rc, r.err[-200:]))
        # Formats by name and by unique prefix.
        for c in ('list-targets', 'depends-on', 'workspace'):
            for f in ('native', 's-expr', 'plist', 'json', 'csv'):
                want = run2([bant, '-f', f, c], cwd=cwd).out
                for i in range(1, len(f)):
                    r = run2([bant, '-f' + f[:i], c], cwd=cwd)
                    o.evaluations += 1
                    if r.rc or r.out != want:
                        o.bad('format prefix', '-f%s for %s' % (f[:i], c))
        formats = ('native', 's-expr', 'plist', 'json', 'csv', 'graphviz')
        known = set(f[:i] for f in formats for i in range(1, len(f) + 1))
        r = random.Random(7)
        for _ in range(150):
            f = list(r.choice(sorted(known)))
            i = r.randrange(len(f) + 1)
            if r.random() < .5: f.insert(i, r.choice('aegmz-A'))
            elif f: f[i % len(f)] = r.choice('abcdgjlnrxz')
            f = ''.join(f)
            res = run2([bant, '-f' + f, 'list-t'], cwd=cwd)
            o.evaluations += 1
            o.count('format_names')
            if (res.rc == 0) != (f in known):
                o.bad('name of format', '-f%s: exit %d' % (f, res.rc))
    o.sample('%d requests that can not be fulfilled' % len(cases))
    return o


ESCAPE = re.compile(rb'\x1b\[[0-9;]*m')


def on_terminal(cmd, cwd):
    """-> (exit code, output), stdout being a terminal."""
    master, slave = pty.openpty()
    attr = __import__('termios').tcgetattr(slave)
    attr[1] = 0                                   # no \n -> \r\n
    __import__('termios').tcsetattr(slave, 0, attr)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=slave,
                         stderr=subprocess.DEVNULL, env=core.env())
    os.close(slave)
    out = b''
    while True:
        try:
            b = os.read(master, 65536)
        except OSError:
            break
        if not b: break
        out += b
    os.close(master)
    return p.wait(), out


def project(r, d):
    """A project in which every command has something to say. -> cwd"""
    fancy = r.random() < .5
    ws = gen_ws.random_graph(r, fancy=fancy)
    for p in ws.packages:
        p.head += r.choice(['', '', 'load("//:x.bzl", "y")\n',
                            'package(default_visibility = ["//visibility:'
                            'public"])\n', 'X = [ glob(["*.h"]) ]\n'])
        for i in range(r.choice([0, 1, 2])):
            t = ws.add_target(p, 'cc_library', ws.fresh_name(p))
            t.attrs.update(srcs=['s%d.cc' % i], hdrs=['h%d.h' % i])
            inc = ''.join('#include "%sh%d.h"\n' % (
                r.choice(ws.packages).dir, r.randrange(2)) for _ in range(3))
            if not p.project:
                ws.files[p.dir + 's%d.cc' % i] = inc
                ws.files[p.dir + 'h%d.h' % i] = ''
        if r.random() < .3:
            ws.add_target(p, 'genrule', ws.fresh_name(p), outs=['gen.h'])
        if r.random() < .3:
            ws.add_target(p, 'cc_library', ws.fresh_name(p),
                          hdrs=gen_ws.Raw('glob(["**/*.h"])'))
        if r.random() < .1:
            p.head += 'cc_library(name = "broken" srcs\n'
    for i in range(r.randrange(4)):
        ws.files['%s/f%d.h' % (r.choice(gen_ws.PATHS) or 'q', i)] = ''
    if r.random() < .5:
        ws.files['.bazelrc'] = 'build --cxxopt=-DX=1 --cxxopt=-std=c++20\n'
    return ws.write(d), ws


def case(bant, plain, shim, seed):
    o = Out()
    r = random.Random(seed)
    with Scratch() as d:
        cwd, ws = project(r, d)
        before = snapshot(d)
        t = r.choice(ws.targets).label
        patterns = ['//...', '//...', gen_ws.canonical(t), t[0] + '//' + t[1] +
                    ':all', t[0] + '//' + (t[1] + '/' if t[1] else '') + '...']
        out_dir = d + '-out'
        os.makedirs(out_dir + '/home/.cache/bant')
        os.makedirs(out_dir + '/home2')
        try:
            for c in COMMANDS:
                pat = [r.choice(patterns)]
                if c not in NEED_PATTERN and r.random() < .3: pat = []
                opts = r.choice([[], [], ['-r'], ['-r1'], ['-e'], ['-e', '-r'],
                                 ['-fjson'], ['-fcsv', '-r'], ['-k'], ['-fs']])
                if c == 'print' and r.random() < .4:
                    opts = opts + r.choice([['-g', 'l'], ['-E'],
                                            ['-i', '-g', 'A']])
                base = opts + [c] + pat
                b = run2([plain] + base, cwd=cwd)
                o.evaluations += 1
                o.sigs.add(sig((seed, base)))
                where = ' '.join(base)
                data = {'files': ws.tree(), 'command': base}
                if b.crashed or b.timed_out or b.rc not in (
                        (0, 3) if c in FINDINGS else (0,)):
                    o.bad('command failed', '%s: exit %d %r' % (
                        where, b.rc, b.err[-300:]), data)
                    continue
                o.count('output_lines', b.out.count(b'\n'))
                if c in FINDINGS:
                    o.count('with_findings', b.rc == 3)
                    if (b.rc == 3) != (b.out != b''):
                        o.bad('exit code of findings', '%s: exit %d with '
                              'output %r' % (where, b.rc, b.out[:200]), data)

                def same(what, res, out=None):
                    o.evaluations += 1
                    o.count(what)
                    rc, got = (res.rc, res.out if out is None else out) if \
                        not isinstance(res, tuple) else res
                    if rc != b.rc or got != b.out:
                        g, w = got.split(b'\n'), b.out.split(b'\n')
                        at = next((i for i, (x, y) in enumerate(zip(g, w))
                                   if x != y), min(len(g), len(w)))
                        o.bad('depends on ' + what,
                              '%s: exit %d instead of %d; %d lines instead of '
                              '%d; first difference %r instead of %r' % (
                                  where, rc, b.rc, len(g), len(w),
                                  g[at:at + 1], w[at:at + 1]), data)

                for v in r.sample([['-v'], ['-vv'], ['-vvv'], ['-q'], ['-vq'],
                                   ['-q', '-v']], 3):
                    k = r.randrange(2)
                    same('verbosity', run2([plain] + (v + base if k else
                                                      base + v), cwd=cwd))
                same('repetition', run2([plain] + base, cwd=cwd))
                same('sanitizer', run2([bant] + base, cwd=cwd))
                f = out_dir + '/f' + str(r.randrange(3))
                if r.random() < .5:
                    with open(f, 'wb') as x: x.write(b'old\n' * 20000)
                res = run2([plain] + r.choice([['-o', f] + base,
                                               base + ['-o' + f]]), cwd=cwd)
                with open(f, 'rb') as x: content = x.read()
                same('output file', res, content)
                if res.out:
                    o.bad('standard output besides the file', where, data)
                same('output file', run2([plain, '-o', '-'] + base, cwd=cwd))
                same('-C', run2([plain, '-C', cwd] + base, cwd=d))
                same('-C', run2([plain] + base + ['-C', '../ws/main'],
                                cwd=d + '/base'))
                e = r.choice([{'HOME': None}, {'HOME': ''},
                              {'HOME': out_dir + '/home'},
                              {'HOME': out_dir + '/home'},
                              {'HOME': out_dir + '/home2'},
                              {'HOME': '/' + 'x' * 5000},
                              {'HOME': f},
                              {'LC_ALL': 'de_DE.UTF-8', 'LANG': 'tr_TR'},
                              {'LC_ALL': None, 'TZ': 'Asia/Tokyo'},
                              {'TERM': 'xterm-256color', 'COLUMNS': '20',
                               'CLICOLOR_FORCE': '1'},
                              {'NO_COLOR': '1', 'PATH': None},
                              {'USER': 'x', 'TMPDIR': '/nonexistent',
                               'VERBOSE': '1', 'PWD': '/'}])
                same('environment', run2([plain] + base, cwd=cwd, extra_env=e))
                for _ in range(2):
                    e = {'LD_PRELOAD': shim, 'DIR_ORDER': str(r.randrange(999))}
                    if r.random() < .4: e['DIR_NOTYPE'] = '1'
                    same('order of directories', run2([plain] + base, cwd=cwd,
                                                      extra_env=e))
                # Options can be anywhere and in any order.
                parts = [[x] for x in opts]
                if '-g' in opts:
                    i = opts.index('-g')
                    parts = [[x] for x in opts[:i]] + [opts[i:i + 2]] + \
                        [[x] for x in opts[i + 2:]]
                seq = parts + [[c]] + ([pat] if pat else [])
                pos = [[c]] + ([pat] if pat else [])
                r.shuffle(seq)
                it = iter(pos)
                seq = [next(it) if s in pos else s for s in seq]
                same('order of options', run2([plain] + sum(seq, []), cwd=cwd))
                if not any(x.startswith('-r') for x in opts):
                    same('-r0', run2([plain, '-r0'] + base, cwd=cwd))
                if '-r' in opts:
                    same('-r1000', run2([plain] + [
                        '-r1000' if x == '-r' else x for x in base], cwd=cwd))
                if c not in ('dwyu',) and '-k' not in opts:
                    same('unrelated options', run2([plain, '-k'] + base,
                                                   cwd=cwd))
                if c != 'print':
                    same('unrelated options', run2(
                        [plain, '-i', '-g', 'zz'] + base, cwd=cwd))
                if r.random() < .5:
                    same('unambiguous prefix', run2(
                        [plain] + [{'print': 'pr', 'list-targets': 'list-t',
                                    'dwyu': 'd' + 'w', 'parse': 'pa'}.get(x, x)
                                   for x in base], cwd=cwd))
                if r.random() < .4:
                    rc, out = on_terminal([plain] + base, cwd)
                    same('terminal', (rc, ESCAPE.sub(b'', out)))
                    rc, out = on_terminal([plain] + base + ['-o', f], cwd)
                    with open(f, 'rb') as x: content = x.read()
                    same('terminal and output file', (rc, content))
            if snapshot(d) != before:
                o.bad('project changed', '', data)
            o.count('projects_unchanged')
        finally:
            shutil.rmtree(out_dir, ignore_errors=True)
    o.sample(where)
    return o


def main():
    c = Check('C20', 'All prefixes of command names and many other words; a '
              'table of requests that have to be refused; documented options; '
              'random projects, where the output of every command is compared '
              'with the one under other verbosity, output file, directory, '
              'environment, order of directories, order of options, terminal. '
              'Distinct: words, command lines and projects.',
              min_evaluations=4000, min_distinct=400)
    asan = built(build.bant)
    plain = built(build.bant, 'plain')
    shim = built(build.preload, 'readdir_order')
    c.pool(_any, [(names, asan), (refused, asan)] + [
        (case, asan, plain, shim, s) for s in c.seeds(c.n(60, 1500))])
    c.finish()


def _any(fn, *a):
    return fn(*a)


main()
