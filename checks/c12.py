"""C12: collecting and reading files of real directory trees (links, cycles,
special and oddly named files) against a reference walk."""
import glob as pyglob
import json, os, pickle, random, stat, subprocess, sys
from common import *
import many_files

NAMES = ['a', 'b', 'c.cc', 'd.h', 'BUILD', 'x y', 'f\xe9', '\xff\xfe', "q'q",
         'new\nline', '-n', 'a.', '..a', '.hid', 'foo.bar.cc', '*', '[a]',
         'n' * 200, '#', 'external', '\xe4\xf6\xfc.cc', '...', 'z.h', ' ']


def make_tree(r, base, mounts=False, loops=True):
    """-> all directories."""
    b = base.encode()
    dirs = [b]
    if mounts:              # further file systems, all start counting at one
        for i in range(r.choice([2, 2, 3, 5])):
            d = r.choice(dirs) + b'/fs%d' % i
            os.mkdir(d)
            subprocess.run(['mount', '-t', 'tmpfs', '-o', 'size=64m', 'none',
                            d], check=True)
            dirs.append(d)
    for _ in range(r.choice([0, 2, 6, 20])):
        d = r.choice(dirs) + b'/' + r.choice(NAMES).encode('latin-1')
        if not os.path.lexists(d) and len(d) < 2000:
            os.mkdir(d)
            dirs.append(d)
    if r.random() < .1:     # deep
        d = r.choice(dirs)
        for _ in range(40):
            d += b'/dd'
            if not os.path.lexists(d): os.mkdir(d)
            dirs.append(d)
    files = []
    for _ in range(r.choice([0, 3, 15, 60])):
        f = r.choice(dirs) + b'/' + r.choice(NAMES).encode('latin-1')
        if os.path.lexists(f): continue
        open(f, 'wb').close()
        files.append(f)
    for _ in range(r.choice([0, 1, 3, 8])):
        f = r.choice(dirs) + b'/' + r.choice(NAMES).encode('latin-1') + \
            r.choice([b'', b'.l', b'.l', b'.cc'])
        if os.path.lexists(f): continue
        k = r.randrange(9) if loops else r.choice([5, 6, 7] if files else [6, 7])
        if k < 4: target = r.choice(dirs)
        elif k == 4: target = os.path.relpath(r.choice(dirs), os.path.dirname(f))
        elif k == 5 and files: target = r.choice(files)
        elif k == 6: target = b'nowhere'
        elif k == 7: target = os.path.basename(f)     # itself
        else: target = b'.'
        os.symlink(target, f)
    if r.random() < .2:
        f = r.choice(dirs) + b'/fifo.cc'
        if not os.path.lexists(f): os.mkfifo(f)
    return dirs


def isdir(p):
    try:
        return stat.S_ISDIR(os.stat(p).st_mode)
    except OSError:
        return False


def reference(start, unwanted, suffix):
    """-> (directories that must be entered as real paths, set of
    (real directory, name) of the files to be found)."""
    seen, files = set(), set()
    work = [start]
    while work:
        d = work.pop()
        rd = os.path.realpath(d)
        if rd in seen: continue
        seen.add(rd)
        try:
            names = os.listdir(d)
        except OSError:
            continue
        for n in names:
            p = d + b'/' + n
            if isdir(p):
                if n not in unwanted:
                    work.append(p)
            elif p.endswith(suffix):
                files.add((rd, n))
    return seen, files


def batch(binary, seed):
    with Scratch() as base:
        return explore(Out(), binary, seed, base, False)


def faulty(binary, preload, seed):
    """Reads that deliver less than asked for and a file system that does not
    tell the type of its entries are no excuse. Nor are file systems without
    inode numbers (with these, links to directories are left out: they can not
    be told from each other)."""
    r = random.Random(seed ^ 77)
    o = Out()
    with Scratch() as base:
        os.mkdir(base + '/w')
        log = base + '/log'
        inodes = r.random() < .7
        rate = r.choice([1, 30, 300, 900, 1000])
        if not inodes: rate = 1000
        explore(o, binary, seed, base + '/w', False, dict(
            LD_PRELOAD=preload, FAULT_KINDS='su' if inodes else 'sui',
            FAULT_DIR=base + '/w', FAULT_RATE=str(rate),
            FAULT_SEED=str(seed), FAULT_LOG=log,
            ASAN_OPTIONS=core.SAN_ENV['ASAN_OPTIONS'] +
            ':verify_asan_link_order=0'), inodes)
        for w in open(log).read().split():
            if w != '.':
                o.count({'s': 'short_reads', 'u': 'untold_types',
                         'i': 'inodes_without_number'}[w[0]],
                        int(w[1:]))
    return o


def several_file_systems(binary, seeds):
    """The same with a tree over several file systems, in which inode numbers
    are not unique; mounted in a mount namespace of its own that ends with the
    process."""
    with Scratch() as base:
        res = run2(['unshare', '-Urm', sys.executable, os.path.abspath(__file__),
                    '--inside', binary, base] + [str(s) for s in seeds],
                   cwd=base, timeout=300)
        if not os.path.exists(base + '/out'):
            o = Out()
            if 'Error' in res.err: raise RuntimeError(res.err[-500:])
            o.count('no_mount_namespace')
            return o
        with open(base + '/out', 'rb') as f: return pickle.load(f)


def inside(binary, base, *seeds):
    try:
        os.mkdir(base + '/probe')
        subprocess.run(['mount', '-t', 'tmpfs', 'none', base + '/probe'],
                       check=True, stderr=subprocess.DEVNULL)
    except subprocess.CalledProcessError:
        return
    o = Out()
    for s in seeds:
        os.mkdir(base + '/' + s)
        explore(o, binary, int(s), base + '/' + s, True)
        o.count('trees_over_several_file_systems')
    with open(base + '/out.tmp', 'wb') as f: pickle.dump(o, f)
    os.rename(base + '/out.tmp', base + '/out')


def explore(o, binary, seed, base, mounts, extra_env=None, loops=True):
    r = random.Random(seed)
    if True:
        os.mkdir(base + '/t')
        dirs = make_tree(r, base + '/t', mounts, loops)
        recs, cases = [], []
        for _ in range(6):
            start = r.choice([dirs[0], dirs[0], r.choice(dirs)])
            style = r.randrange(4)
            cwd_rel = os.path.relpath(start, base.encode())
            arg = [start, cwd_rel, b'./' + cwd_rel, start + b'/'][style]
            if r.random() < .1:
                arg = start + b'/does-not-exist'
            unwanted = [n.encode('latin-1') for n in NAMES
                        if r.random() < r.choice([0, .1, .4])]
            suffix = r.choice([b'', b'', b'.cc', b'.h', b'a'])
            cases.append((arg, start, unwanted, suffix))
            recs.append([arg.decode('latin-1'), b'/'.join(unwanted).decode('latin-1'),
                         suffix.decode('latin-1')])
        # Predicates get whatever: files and directories of odd names
        ans = core.probe_batch(binary, 'collect', recs, cwd=base,
                               extra_env=extra_env)
        for (arg, start, unwanted, suffix), a in zip(cases, ans):
            o.evaluations += 1
            key = None
            if 'crash' in a or 'hang' in a:
                key, msg = 'crash ' + a.get('crash', 'hang'), a.get('err', '')
            elif a['odd']:
                key, msg = 'predicate called with wrong kind', a['odd']
            else:
                full = os.path.join(base.encode(), arg)
                want_d, want_f = reference(full, set(unwanted), suffix) \
                    if os.path.isdir(full) else (set(), set())
                got = []
                for p, name, d, l, c in a['files']:
                    p, name = p.encode('latin-1'), name.encode('latin-1')
                    q = os.path.join(base.encode(), p)
                    if name != os.path.basename(p):
                        key, msg = 'filename of path', repr((p, name))
                    if d or l != os.path.islink(q) or \
                       c != os.access(q, os.R_OK):
                        key, msg = 'file attributes', repr((p, d, l, c))
                    if not p.startswith(arg.rstrip(b'/') + b'/'):
                        key, msg = 'path not below start', repr((arg, p))
                    got.append((os.path.realpath(os.path.dirname(q)), name))
                o.count('files_found', len(got))
                o.count('directories_entered', len(want_d))
                o.sigs.add(sig((sorted(got), suffix)))
                if len(set(got)) != len(got):
                    key, msg = 'file found twice', repr(sorted(
                        {g for g in got if got.count(g) > 1})[:3])
                if set(got) != want_f:
                    key, msg = 'wrong files', 'additional %r missing %r' % (
                        sorted(set(got) - want_f)[:3],
                        sorted(want_f - set(got))[:3])
            if key:
                tree = [(os.path.join(x, f), os.path.islink(os.path.join(x, f))
                         and os.readlink(os.path.join(x, f)))
                        for x, ds, fs in os.walk(base.encode())
                        for f in ds + fs]
                o.bad(key, msg, (arg, unwanted, suffix, tree[:200]))

        # Reading, path attributes, shell globs
        recs, want = [], []
        rd = base.encode() + b'/read'
        os.mkdir(rd)
        for i in range(12):
            n = r.choice([0, 1, 2, 100, 4095, 4096, 4097, 65536, 200000])
            content = r.randbytes(n)
            p = rd + b'/%d' % i + r.choice(NAMES).encode('latin-1')
            with open(p, 'wb') as f: f.write(content)
            via = p
            k = r.randrange(5)
            if k == 0:
                via = p + b'.link'
                os.symlink(p, via)
            if k == 1: via = rd + b'/../read//' + os.path.basename(p)
            if k == 2: via = os.path.relpath(p, base.encode())
            recs.append(['r', via.decode('latin-1')])
            want.append(content.decode('latin-1'))
        os.mkfifo(rd + b'/fifo')
        os.symlink(b'nothing', rd + b'/broken')
        os.symlink(b'self', rd + b'/self')
        for p in (b'', b'/nothing', b'/fifo', b'/broken', b'/self', b'/0x/y'):
            recs.append(['r', (rd + p).decode('latin-1')])
            want.append(None)
        recs.append(['r', ''])
        want.append(None)
        ans = core.probe_batch(binary, 'files', recs, cwd=base,
                               extra_env=extra_env)
        for rec, w, a in zip(recs, want, ans):
            o.evaluations += 1
            o.count('reads')
            if isinstance(a, dict):
                o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), rec)
            elif a != w:
                o.bad('content read', '%r: %r.. instead of %r..' % (
                    rec, a and (len(a), a[:50]), w and (len(w), w[:50])), rec)
        recs, want = [], []
        every = [os.path.join(x, f) for x, ds, fs in os.walk(base.encode() +
                                                             b'/t')
                 for f in ds + fs][:40]
        for p in every + [base.encode() + b'/gone', base.encode()]:
            rel = os.path.relpath(p, base.encode())
            arg = r.choice([p, rel])
            w = [os.path.basename(arg).decode('latin-1'), isdir(p),
                 os.path.islink(p), os.access(p, os.R_OK)]
            if r.random() < .5:
                recs.append(['p', arg.decode('latin-1')])
            else:
                recs.append(['j', (os.path.dirname(p) + r.choice(
                    [b'', b'/', b'//'])).decode('latin-1'),
                    os.path.basename(p).decode('latin-1')])
                w[0] = os.path.basename(p).decode('latin-1')
            want.append(w)
        ans = core.probe_batch(binary, 'files', recs, cwd=base,
                               extra_env=extra_env)
        for rec, w, a in zip(recs, want, ans):
            o.evaluations += 1
            o.count('paths')
            if isinstance(a, dict):
                o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), rec)
                continue
            if a[1:5] != w or a[5] != a[0] or not a[6] or (
                    rec[0] == 'p' and a[0] != rec[1]) or (
                    rec[0] == 'j' and a[0] != rec[1].rstrip('/') + '/' +
                    rec[2]):
                o.bad('path attributes', '%r: %r instead of %r' % (rec, a, w),
                      rec)
        recs, want = [], []
        for p in ('t/*', 't/*/*', 't/a*', 't/*.cc', 't/[ab]', 'read/?c.cc',
                  'nothing/*', 't/x y', base + '/t/*', 't/*/'):
            recs.append(['g', p])
            want.append(sorted(
                os.fsencode(x).decode('latin-1')
                for x in pyglob.glob(p, root_dir=base)))
        ans = core.probe_batch(binary, 'files', recs, cwd=base,
                               extra_env=extra_env)
        for rec, w, a in zip(recs, want, ans):
            o.evaluations += 1
            o.count('shell_globs')
            if isinstance(a, dict):
                o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), rec)
            elif sorted(a) != w:
                o.bad('shell glob', '%r: %r instead of %r' % (rec, a, w), rec)
    o.sample(repr(cases[0][:1]))
    return o


def main():
    c = Check('C12', 'Random trees with symbolic links (cycles, parents, '
              'itself, broken), fifos and odd names; predicates by name and '
              'suffix. Distinct: by set of files found.',
              min_evaluations=10000, min_distinct=500,
              assumptions=['Files do not change while they are read'])
    binary = built(build.probe, 'util')
    c.pool(batch, [(binary, s) for s in c.seeds(c.n(400, 8000))])
    preload = built(build.preload, 'fs_faults')
    c.pool(faulty, [(binary, preload, s)
                    for s in c.seeds(c.n(160, 3000), 'faults')])
    s = list(c.seeds(c.n(80, 2000), 'mounts'))
    c.pool(several_file_systems, [(binary, s[i::16]) for i in range(16)])
    bant = built(build.bant)
    c.pool(many_files.case, [(bant, s, False)
                             for s in c.seeds(c.n(4, 40), 'open')])
    c.finish()


if sys.argv[1:2] == ['--inside']:
    inside(*sys.argv[2:])
else:
    main()
