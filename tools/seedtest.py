#!/usr/bin/env python3
"""For each seeded change: existing tests pass with it, the demonstration
passes without and fails with it, and does the property's check catch it?
usage: seedtest.py [--check-only] [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def gtests(repo, bdir):
    code = '''
import sys,subprocess,glob,os
sys.path.insert(0,%r)
from vlib import build
bad=[]
for t in sorted(glob.glob(build.REPO+'/bant/**/*_test.cc',recursive=True)):
    try: b=build.repo_test(os.path.relpath(t,build.REPO),'plain')
    except build.BuildError as e: bad.append('BUILD '+t+str(e)[:300]); continue
    if subprocess.run([b],capture_output=True).returncode: bad.append(os.path.basename(t))
print(' '.join(bad) or 'pass')
''' % V
    r = sh([sys.executable, '-c', code],
           env=dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bdir))
    return (r.stdout + r.stderr[-300:]).strip()


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    check_only = '--check-only' in sys.argv
    for d in sorted(glob.glob(V + '/seeded/*/')):
        sid = os.path.basename(d[:-1])
        if a and sid not in a: continue
        meta = json.load(open(d + 'meta.json'))
        prop = meta['property']
        with tempfile.TemporaryDirectory() as t:
            repo = t + '/repo'
            sh(['cp', '-a', '/repo', repo])
            demo = t + '/demo'
            shutil.copytree(d, demo)
            for x in ('patch.diff', 'meta.json'): os.unlink(demo + '/' + x)
            res = []
            if not check_only:
                r0 = sh(['bash', demo + '/demo.sh'], cwd=repo)
                res.append('clean=%d' % r0.returncode)
                if r0.returncode: print(r0.stdout[-500:], r0.stderr[-800:])
            r = sh(['git', '-C', repo, 'apply', d + 'patch.diff'])
            assert r.returncode == 0, r.stderr
            if not check_only:
                r1 = sh(['bash', demo + '/demo.sh'], cwd=repo)
                res.append('patched=%d' % r1.returncode)
                if r1.returncode == 77: print(r1.stderr[-1500:])
                res.append('tests=' + gtests(repo, t + '/b'))
            t0 = time.time()
            ev = t + '/v'
            r2 = sh([sys.executable, V + '/checks/%s.py' % prop.lower()],
                    env=dict(os.environ, VERIF_REPO=repo,
                             VERIF_BUILD=t + '/b', VERIF_SEED='1',
                             VERIF_EVIDENCE=ev))
            caught = r2.returncode == 1 and 'VIOLATION property=' + prop in r2.stdout
            res.append('%s rc=%d %s (%.0fs)' % (
                prop, r2.returncode, 'CAUGHT' if caught else 'MISSED',
                time.time() - t0))
            print(sid, ' '.join(res), flush=True)
            if '-v' in sys.argv: print(r2.stdout[-1500:])
            elif not caught: print(r2.stderr[-600:])


main()
