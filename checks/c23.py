"""C23: prewarming. Histories of runs with a remembered state in $HOME, that is
kept, damaged, shared and interrupted; thread schedules are stirred with
delays, threads counted, and each output compared with a run without any."""
import os, random, signal, subprocess, time
from common import *
import many_files
from vlib import gen_ws

SAN = 'verify_asan_link_order=0'


def state(r, path, others):
    """Damages the remembered state. -> what was done"""
    k = r.choice(['kept'] * 6 + ['garbage', 'lines', 'cut', 'flipped',
                                 'long', 'directory', 'link', 'empty',
                                 'stale', 'loop'])
    if k == 'kept': return k
    try:
        with open(path, 'rb') as f: old = f.read()
    except OSError: old = b'FMODULE.bazel\nD.\n'
    if os.path.isdir(path): os.rmdir(path)
    elif os.path.lexists(path): os.unlink(path)
    data = old
    if k == 'garbage': data = r.randbytes(r.choice([1, 100, 100000]))
    elif k == 'cut': data = old[:r.randrange(len(old) + 1)]
    elif k == 'empty': data = b''
    elif k == 'flipped':
        data = bytearray(old or b'x')
        for _ in range(5):
            data[r.randrange(len(data))] = r.choice(b'\n\0FD/.\xff')
    elif k == 'lines':
        data = b''.join(r.choice([b'F', b'D', b'X', b'', b'DF']) + r.choice(
            [b'', b'.', b'/', b'nope', b'x' * 5000, b'/proc/self', b'\0', b'..',
             b'/dev/null', b'/proc/self/exe', b'./a/b', b' ', b'~'])
            + r.choice([b'\n', b'\r\n', b'\n\n']) for _ in range(50)) + b'Dlast'
    elif k == 'long':
        data = b''.join(b'%c./d%d/f\n' % (b'FD'[i & 1], i)
                        for i in range(r.choice([3000, 30000])))
    elif k == 'loop': data = old * 20
    elif k == 'stale':
        data = b''.join(b'F./old/%d\nD./gone%d\n' % (i, i)
                        for i in range(40)) + old
    elif k == 'directory':
        os.mkdir(path)
        return k
    elif k == 'link':
        os.symlink('nowhere/at/all', path)
        return k
    with open(path, 'wb') as f: f.write(bytes(data))
    return k


def project(r):
    ws = gen_ws.random_graph(r, fancy=True, n=r.choice([3, 10, 25]))
    for t in ws.targets:
        if t.rule.startswith('cc_'):
            t.attrs['srcs'] = r.choice([gen_ws.Raw('glob(["**/*.cc"])'),
                                        [t.name.replace('/', '_') + '.cc']])
        if not t.pkg.project and r.random() < .5:
            for i in range(r.choice([1, 5])):
                ws.files[t.pkg.dir + 's%d/x%d.cc' % (i % 2, i)] = \
                    '#include "x.h"\n'
    return ws


COMMANDS = [['print', '-e', '//...'], ['list-packages', '//...'],
            ['list-targets', '...'], ['dwyu', '//...'], ['workspace'],
            ['depends-on', '//...', '-f', 'json'], ['lib-headers', '//...'],
            ['compilation-db', '//...'], ['parse', '...'],
            ['canonicalize', '//...'], ['has-dependents', '//...'],
            ['print', '//nope/...'], ['-V'], ['nonsense']]


def history(bins, lib, variant, seed):
    o = Out()
    r = random.Random(seed)
    ws = project(r)
    commands = r.sample(COMMANDS, 2)
    with Scratch() as d:
        cwd = ws.write(d)
        home = d + '/home'
        cache = home + '/.cache/bant'
        os.makedirs(cache)
        os.makedirs(d + '/nohome')
        log = d + '/log'
        expected = {}

        def without(args):
            res = run2([bins[variant]] + args, cwd=cwd,
                       extra_env={'HOME': d + '/nohome'})
            return res.rc, res.out, res.err

        def environment():
            return {'HOME': home, 'LD_PRELOAD': lib, 'WATCH_LOG': log,
                    'WATCH_SEED': str(r.getrandbits(30)),
                    'WATCH_DELAY': r.choice(['0', '100', '2000', '20000']),
                    'WATCH_MAIN_DELAY': r.choice(['0', '0', '300']),
                    'ASAN_OPTIONS': core.SAN_ENV['ASAN_OPTIONS'] + ':' + SAN}
        steps = []
        for step in range(r.choice([4, 8, 12])):
            args = r.choice(commands)
            if r.random() < .15:     # something changes
                steps.append('project changed')
                f = cwd + '/%s/new%d.cc' % (r.choice(
                    [p.path for p in ws.packages if not p.project]), step)
                with open(f, 'w') as fh: fh.write('// x\n')
                expected = {}
            files = os.listdir(cache)
            done = 'first'
            if files:
                done = state(r, cache + '/' + r.choice(files), files)
            o.count('state_' + done)
            steps.append((done, args))
            key = tuple(args)
            if key not in expected: expected[key] = without(args)
            how = r.choice(['alone'] * 6 + ['several', 'killed'])
            if how == 'killed':
                p = subprocess.Popen([bins[variant]] + args, cwd=cwd,
                                     env=core.env(environment()),
                                     stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL,
                                     stdin=subprocess.DEVNULL)
                time.sleep(r.random() * .05)
                p.send_signal(signal.SIGKILL)
                p.wait()
                o.count('killed')
                steps.append('killed')
                continue
            n = r.choice([3, 6]) if how == 'several' else 1
            extra = r.choice([[], [], ['-k']]) if args[0] != '-V' else []
            if os.path.exists(log): os.unlink(log)
            procs = [subprocess.Popen(
                [bins[variant]] + args + extra, cwd=cwd,
                env=core.env(environment()),
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE) for _ in range(n)]
            for p in procs:
                try: out, err = p.communicate(timeout=120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    o.bad('does not finish', repr(args), (steps, ws.tree()))
                    return o
                o.evaluations += 1
                got = (p.returncode, out, err)
                res = core.Result(p.returncode, out, err, False)
                if res.crashed:
                    o.bad('crash ' + res.crash_key(),
                          err[-2500:].decode('latin-1'), (steps, ws.tree()))
                    return o
                if extra and args[0] == 'dwyu': continue
                if got != expected[key]:
                    o.bad('other output', '%s: %r instead of %r' % (
                        args, got, expected[key]), (steps, ws.tree()))
                    return o
            if n > 1: o.count('concurrent', n)
            lines = []
            if os.path.exists(log):
                with open(log) as f: lines = f.read().splitlines()
            if len(lines) != n:
                o.bad('ended without cleaning up', '%d of %d: %s' % (
                    len(lines), n, args), steps)
            for line in lines:
                made, joined, ended, detached, entered, left = \
                    map(int, line.split())
                o.count('threads', made)
                o.count('prewarmed', left)
                o.sigs.add((variant, made, entered, left, done))
                if made != joined or made != ended or detached or \
                   entered != left:
                    o.bad('threads left behind',
                          '%d started, %d joined, %d ended, %d detached, '
                          '%d file accesses begun, %d finished' % (
                              made, joined, ended, detached, entered, left),
                          steps)
        o.sample(repr(steps[:4]))
    return o


def main():
    c = Check('C23', 'Histories of commands on random projects with a '
              'remembered state that is kept, damaged in many ways, shared by '
              'concurrent runs, or left by killed ones; with random delays in '
              'all threads. Distinct: numbers of threads and of accesses, '
              'kind of damage.', min_evaluations=400, min_distinct=60,
              assumptions=['Threads can be created'])
    bins = {v: built(build.bant, v) for v in ('plain', 'asan', 'tsan')}
    lib = built(build.preload, 'prewarm_watch')
    c.pool(history, [(bins, lib, ['tsan', 'asan', 'plain'][i % 3], s)
                     for i, s in enumerate(c.seeds(c.n(120, 5000)))])
    c.pool(many_files.case, [(bins['asan'], s, True)
                             for s in c.seeds(c.n(4, 40), 'o')])
    c.finish()


main()
