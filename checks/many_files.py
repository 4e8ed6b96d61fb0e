"""Shared by C12, C23 and C29: projects with more files and directories than
files may be open at a time give the same results as without such a limit."""
import os, random, resource, subprocess
from common import *


def case(bant, seed, warm):
    o = Out()
    r = random.Random(seed)
    n, limit = r.choice([120, 200, 300]), r.choice([100, 90])
    files = {'MODULE.bazel': ''}
    for i in range(n):
        d = r.choice(['', 'a/', 'b/c/']) + 'd%d/' % i
        files[d + 'BUILD'] = (
            'cc_library(name = "l%d", srcs = ["x.cc"] + glob(["**/*.cc"]), '
            'hdrs = ["h%d.h"], deps = ["//:none", ":l%d"], '
            'visibility = ["//visibility:public"])\n' % (i, i, i))
        files[d + 'x.cc'] = '#include "%sh%d.h"\n' % (
            d if r.random() < .5 else '', i)
        files[d + 'h%d.h' % i] = ''
        files[d + 'sub/y%d.cc' % i] = ''
    with Scratch() as d:
        write_tree(d + '/ws', files)
        env = {}
        if warm:
            os.makedirs(d + '/home/.cache/bant')
            env = {'HOME': d + '/home'}

        def run(args, limited):
            def pre():
                resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))
            p = subprocess.run([bant] + args, cwd=d + '/ws', timeout=120,
                               preexec_fn=pre if limited else None,
                               stdin=subprocess.DEVNULL, capture_output=True,
                               env=core.env(env if limited else {}))
            o.evaluations += 1
            return p.returncode, p.stdout, p.stderr.count(b'\n')
        for args in (['list-targets', '//...'], ['dwyu', '//...'],
                     ['print', '-e', '//...']):
            want = run(args, False)
            o.count('limited_open_files')
            o.sigs.add(sig((args, seed)))
            for again in range(3 if warm else 1):
                got = run(args, True)
                if got != want:
                    o.bad('differs if few files can be open at a time',
                          '%s: %d lines exit %d, expected %d lines exit %d' % (
                              args, got[1].count(b'\n'), got[0],
                              want[1].count(b'\n'), want[0]),
                          {'packages': n, 'limit': limit, 'warm': warm})
                    return o
    return o
