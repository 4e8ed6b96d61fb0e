#!/usr/bin/env python3
"""Writes /verif/seeded/* from the definitions in tools/plant/*.py; patches
are made against the current HEAD of /repo."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, 'tools', 'plant')


def plant(d, repo, only=None):
    if only and d['id'] not in only:
        return
    out = os.path.join(V, 'seeded', d['id'])
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new in d['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (d['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True,
                          check=True, text=True).stdout
    assert diff
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    kind = d['kind']
    lines = ['#!/bin/bash', '. "$(dirname "$0")/demo_lib.sh"']
    shutil.copy(os.path.join(P, 'demo_lib.sh'), out)
    if kind == 'tidy':
        shutil.copy(os.path.join(P, 'fake-clang-tidy.sh'), out)
        lines.append('build_tidy')
    elif kind in ('bant', 'lib'):
        shutil.copytree(os.path.join(V, 'shim'), os.path.join(out, 'shim'))
        if kind == 'lib':
            open(os.path.join(out, 'demo.cc'), 'w').write(d['cc'])
            lines.append('build_bant demo.cc')
        else:
            lines.append('build_bant')
            lines.append('mkdir "$T/p"; cd "$T/p"; : > MODULE.bazel')
    elif kind == 'cpp':
        open(os.path.join(out, 'demo.cc'), 'w').write(d['cc'])
        lines.append('g++ -std=c++20 -O1 -g -w -fsanitize=address,undefined '
                     '-fno-sanitize-recover=all -I"$REPO" "$HERE/demo.cc" '
                     '%s -o "$T/demo" || die compile' % d.get('link', ''))
    lines += [d['demo'].strip(), 'exit 0']
    sh = os.path.join(out, 'demo.sh')
    open(sh, 'w').write('\n'.join(lines) + '\n')
    os.chmod(sh, 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'],
               'what_it_breaks': d['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print('planted', d['id'])


def main():
    only = sys.argv[1:]
    with tempfile.TemporaryDirectory() as t:
        repo = os.path.join(t, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        for f in sorted(glob.glob(os.path.join(P, '*.py'))):
            ns = {}
            exec(open(f).read(), ns)
            for d in ns['SEEDS']:
                plant(d, repo, only)


main()
