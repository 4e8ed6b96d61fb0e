"""C26: the report. Oracle: blocks and counts computed from the raw outputs of
the stand-in lint tool."""
import random
from common import *
from vlib import tidy

DIRNAMES = ['proj', 'c++', 'a b', 'x(1)', 'q*[z]', 'dollar$', 'p.r.o.j',
            'pa|pe', 'ba{1}ck', "it's", 'trailing.']
CHECKS = tidy.CHECKS + [
    'a', 'google-readability-todo', 'cert-dcl50-cpp', 'misc-x,readability-y',
    'clang-analyzer-optin.cplusplus.VirtualCall', 'cppcoreguidelines-c++-x',
    'modernize-use-emplace,-warnings-as-errors', 'A_b-9', 'fuchsia-1',
    'clang-diagnostic-error', 'concurrency-mt-unsafe', 'zircon-b.2']
NAMES = ['a.cc', 'b.h', 'util/x.cc', 'util/x.h', 'sp ace.cc', "it's.cc",
         'c++/d.cpp', 'x/y/z.hpp', 'deep/er/est/f.cxx', 'g.inl', 'h.hxx',
         'foo.pb.h', 'noext', 'x.c', 'README.md', 'dup/a.cc', 'dup/b.h',
         '-dash.cc', 'semi;colon.cc', '(p).cc', '\xc3\xbc.cc', '.hid.cc',
         'bant/a.cc', 'double"q.cc', 'dol$HOME.cc', 'back`tick.cc', 'st*r.cc']


def raw_output(r, path, proj, pool):
    """-> (what the tool prints, what is to be in the report, checks)"""
    raw, canon, checks = [], [], []
    if r.random() < .08:  # nothing that can be counted
        rest = path + r.choice([':1:2: error: broken\n', ':3:4: note: here\n'])
        return r.choice(['', './', proj.dir + '/']) + rest, rest, []
    for _ in range(r.choice([0, 1, 1, 2, 5, 30])):
        pre = r.choice(['', '', './', proj.dir + '/', proj.dir + '/./',
                        proj.execroot + '/', proj.execroot + '/./'])
        chk = r.choice(pool)
        sev = r.choice(['warning', 'warning', 'error'])
        msg = r.choice(['use nullptr', 'x \'y\' [z] w', 'in ' + proj.dir +
                        '/bant/a.cc', 'a: b: c', 'arr[i] unused', '',
                        'say "hi" [foo-bar] to', 'l' * 300])
        # Paths of other projects stay what they are.
        other = r.choice(['', '', '', '/usr/include/', '/else' + proj.dir +
                          '/', proj.dir + 'x/', '../'])
        p = other + path if other else path
        rest = '%s:%d:%d: %s: %s [%s]\n' % (p, r.randrange(1, 999),
                                            r.randrange(1, 99), sev, msg, chk)
        raw.append((pre if not other else '') + rest)
        canon.append(rest)
        checks.append(chk)
        for _ in range(r.randrange(3)):
            l = r.choice(['   12 |   foo(bar);\n', '      |       ^~~~\n',
                          '  y = x[i]\n', '     auto f = [this]\n', '\n',
                          '   ./x\n', ' ' + proj.dir + '/indented\n',
                          '      |       nullptr\n'])
            raw.append(l)
            canon.append(l)
        if r.random() < .3:
            rest = '%s:3:4: note: seen here\n' % path
            raw.append(r.choice(['', './', proj.dir + '/']) + rest)
            canon.append(rest)
    return ''.join(raw), ''.join(canon), checks


def case(bins, seed, rounds):
    o = Out()
    r = random.Random(seed)
    for k in range(rounds):
        with Scratch('vt-') as base:
            ex = r.choice(['/nowhere/execroot/_main', '/h/.cache/b+z/x.y/er',
                           base + '/out/execroot/(m)', '/a'])
            proj = tidy.Project(base, bins, dirname=r.choice(DIRNAMES),
                                execroot=ex)
            pool = r.sample(CHECKS, r.randrange(1, len(CHECKS)))
            clean = r.random() < .12
            blocks, counts, nf = {}, {}, 0
            names = r.sample(NAMES, r.randrange(1, len(NAMES)))
            for n in names:
                p = 'bant/' + n
                proj.put(p, r.choice(['int x;\n', '', '// %d\n' %
                                      r.randrange(3)]))
                raw, canon, checks = raw_output(r, p, proj, pool)
                if clean:
                    raw, canon, checks = '', '', []
                write_tree(proj.fake, {'raw/' + p.replace('/', '!'): raw})
                if os.path.splitext(n)[1] not in tidy.SOURCE_EXT:
                    continue
                if canon:
                    blocks[p] = p + ':\n' + canon
                nf += len(checks)
                for c in checks:
                    counts['[%s]' % c] = counts.get('[%s]' % c, 0) + 1
            for extra in r.sample(['other/x.cc', 'top.cc', 'build/y.cc',
                                   'bantx/z.cc'], 2):
                proj.put(extra, 'int z;\n')
                with open(os.path.join(proj.fake, 'raw',
                                       extra.replace('/', '!')), 'w') as f:
                    f.write(extra + ':1:1: warning: no [not-reported]\n')
            if r.random() < .3:     # left over from something earlier
                proj.keep_reports = True
                write_tree(proj.dir, {'old': 'bant/z.cc:\nold\n'})
                for n in ('bant_clang-tidy.out', 'bant_clang-tidy.summary'):
                    k, n = r.randrange(4), os.path.join(proj.dir, n)
                    if k == 0: os.symlink('old', n)
                    if k == 1: os.symlink('/nonexistent/x', n)
                    if k == 2: write_tree(proj.dir, {
                        os.path.basename(n): '    3 [old]\n'})
            for again in range(2):  # second time: from cache
                rep = proj.run()
                o.evaluations += 1
                o.count('findings', nf)
                o.count('blocks', len(blocks))
                o.count('kinds', len(counts))
                o.count('clean', not counts)
                o.sigs.add(sig((sorted(blocks.items()))))
                bad = tidy.compare_report(rep, blocks, counts)
                for key, msg in bad:
                    o.bad(key, '%s (in directory %r, %s run)' % (
                        msg, os.path.basename(proj.dir),
                        ['first', 'cached'][again]),
                        {'seed': seed, 'round': k, 'files': proj.files,
                         'blocks': blocks})
                if bad:
                    return o
            if not o.samples and counts:
                o.sample('%r: %d files, %r' % (os.path.basename(proj.dir),
                                               len(blocks), counts))
    return o


def main():
    c = Check('C26', 'Projects of oddly named files in oddly named '
              'directories, for which the stand-in tool prints random '
              'findings (kinds, severities, notes, source lines, path '
              'prefixes of project and execution root). Report, summary and '
              'exit code are compared with what these outputs amount to. '
              'Distinct: by reported blocks.', min_evaluations=100,
              min_distinct=40)
    bins = built(tidy.binaries, 'asan')
    c.pool(case, [(bins, s, c.n(6, 12)) for s in c.seeds(c.n(160, 1600))])
    c.finish()


main()
