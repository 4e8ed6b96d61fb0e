"""C10: target patterns and visibility against a reference matcher, and what
the list-targets and print commands select in real projects."""
import json, random, re
from common import *

SEGS = ['foo', 'foobar', 'fo', 'bar', 'a', 'ab', 'foo.d', 'foo-bar', 'src']
NAMES = ['foo', 'foobar', 'fo', 'bar', 'a', 'ab', 'a.b', 'axb', 'foo_test',
         'bar_test', 'foo_test2', 'test_foo', 'a+b', 'foo/bar', 'foo.h',
         'a(b', '[x]', 'x', 'ball', 'oof', '_test', 'aab', 'abab']
REPOS = ['', '', '', '@x', '@xy', '@repo']


def path(r, n=None):
    return '/'.join(r.choice(SEGS) for _ in range(
        r.choice([0, 1, 1, 2, 2, 3]) if n is None else n))


def glob_name(r):
    n = r.choice(NAMES)
    k = r.randrange(6)
    if k == 0: return n[:r.randrange(1, len(n) + 1)] + '*'
    if k == 1: return '*' + n[r.randrange(len(n)):]
    i = r.randrange(len(n) + 1)
    j = r.randrange(i, len(n) + 1)
    if k == 2: return n[:i] + '*' + n[j:]
    if k == 3: return n[:i] + '**' + n[j:]
    if k == 4: return '*' + n[i:j] + '*'
    return '*_*' + r.choice(['', 't', 'st', '*'])


def name_match(pat, name):
    return re.fullmatch('.*'.join(map(re.escape, pat.split('*'))), name,
                        re.S) is not None


def below(base, p):
    return base == '' or p == base or p.startswith(base + '/')


def pattern(r, visibility, ctx):
    """-> (text, what it matches: (project, path, name) -> bool,
          package -> bool, recursive)"""
    project, p = r.choice(REPOS), path(r)
    if r.random() < .5 and visibility:
        project, p = ctx
    pre = project
    if not visibility and not project and r.random() < .15:
        pre = '@'
    if visibility and project != ctx[0] and not project:
        pre = '@'
    if visibility and project == ctx[0] and r.random() < .6:
        pre = ''
    def pkg(q): return q == (project, p)
    def sub(q): return q[0] == project and below(p, q[1])
    if visibility:
        k = r.randrange(6)
        if k == 0: return '//visibility:public', lambda t: True, lambda q: True, None
        if k == 1:
            c = tuple(ctx)
            return '//visibility:private', lambda t: t[:2] == c, \
                lambda q: q == c, False
        if k == 2:
            return pre + '//' + p + ':__pkg__', lambda t: pkg(t[:2]), pkg, False
        if k == 3:
            return pre + '//' + p + ':__subpackages__', \
                lambda t: sub(t[:2]), sub, True
        if k == 4:   # within the own package
            c = tuple(ctx)
            return ':__pkg__', lambda t: t[:2] == c, lambda q: q == c, False
        return pre + '//' + (p + '/' if p else '') + '...', \
            lambda t: sub(t[:2]), sub, True
    k = r.randrange(8)
    if k < 2:
        s = pre + '//' + (p + '/' if p else '') + '...'
        if not pre and not p and r.random() < .5:
            s = '...'
        elif not pre and p and r.random() < .3:
            s = p + '/...'
        return s, lambda t: sub(t[:2]), sub, True
    if k < 4:
        s = pre + '//' + p + ':' + r.choice(['all', '*', '__pkg__'])
        return s, lambda t: pkg(t[:2]), pkg, False
    if k == 4:
        return pre + '//' + p + ':__subpackages__', lambda t: sub(t[:2]), \
            sub, True
    if k < 7:
        g = glob_name(r)
        if g == '*':
            return pre + '//' + p + ':*', lambda t: pkg(t[:2]), pkg, False
        return pre + '//' + p + ':' + g, \
            lambda t: pkg(t[:2]) and name_match(g, t[2]), pkg, False
    n = r.choice(NAMES)
    s = pre + '//' + p + ':' + n
    if p and r.random() < .5:
        n = p.split('/')[-1]
        s = pre + '//' + p
    return s, lambda t: t == (project, p, n), pkg, False


def near(r, text, ctx):
    """Targets around what the pattern is about."""
    m = re.match(r'(@\w*)?(?://)?([^:]*)', text)
    proj = m[1] or ''
    if proj == '@': proj = ''
    base = m[2].replace('...', '').strip('/')
    out = []
    for _ in range(25):
        p = r.choice([base, base + '/' + r.choice(SEGS), base + 'bar',
                      base + r.choice(['.', '-', 'x']) + '/foo', path(r),
                      base.rsplit('/', 1)[0], base[:-1], ctx[1],
                      base + '/...'])
        p = p.strip('/')
        out.append((r.choice([proj, proj, proj, ctx[0], '', '@x', '@xy']), p,
                    r.choice(NAMES + [p.split('/')[-1] or 'foo'])))
    return out


def batch(binary, seed, n):
    o = Out()
    r = random.Random(seed)
    cases, recs = [], []
    for _ in range(n):
        vis = r.random() < .4
        ctx = (r.choice(REPOS), path(r)) if vis else ('', '')
        text, tm, pm, rec = pattern(r, vis, ctx)
        targets = near(r, text, ctx)
        cases.append((vis, ctx, text, tm, pm, rec, targets))
        recs.append(['v' if vis else 'p', ctx[0] + '//' + ctx[1], text] +
                    [x for t in targets for x in t])
    for (vis, ctx, text, tm, pm, rec, targets), a in zip(
            cases, core.probe_batch(binary, 'patterns', recs)):
        if 'crash' in a or 'hang' in a:
            o.bad('crash ' + a.get('crash', 'hang'), a.get('err', ''), text)
            continue
        if not a['ctx'] or not a['ok']:
            o.bad('valid pattern refused', repr(text), text)
            continue
        o.sigs.add(sig((vis, ctx, text)))
        o.count('visibility' if vis else 'patterns')
        if rec is None and not a['all']:
            o.bad('public does not match everything', text, text)
        if rec is not None and (a['all'] or a['recursive'] != rec):
            o.bad('kind of pattern', '%r %r' % (text, a), text)
        for t, g, k in zip(targets, a['targets'], a['packages']):
            o.evaluations += 1
            o.count('matches' if tm(t) else 'no_matches')
            if g != '01'[tm(t)]:
                o.bad('match of target', '%r (in %s//%s): %s %r' % (
                    text, ctx[0], ctx[1],
                    'matches' if g == '1' else 'does not match', t),
                    (text, ctx, t))
                break
            if k != '01'[pm(t[:2])]:
                o.bad('match of package', '%r (in %s//%s): %s %r' % (
                    text, ctx[0], ctx[1],
                    'matches' if k == '1' else 'does not match', t[:2]),
                    (text, ctx, t))
                break
    o.sample(cases[0][2])
    return o


NOT_WALKED = {'_tmp', '.cache', '.git'}


def command_case(bant, seed):
    o = Out()
    r = random.Random(seed)
    pkgs = {'', 'foo', 'foobar'} | {path(r) for _ in range(r.choice([2, 6]))}
    pkgs |= {path(r, r.randrange(3)) + r.choice(['/', '']) + r.choice(
        ['.github', '_x', '_', '.d/foo', '.gitx', '.cach', 'tmp', 'external2',
         'bazel-foo', 'BUILD', '-', 'a b', 'x/BUILD.bazel', '.cache.d/..a',
         'testdata', 'node_modules', 'build', 'third_party', 'WORKSPACE',
         '_tmp', '_tmp2', 'x.git', 'x.cache', '_TMP', '.Git', 'git', 'BUILDS',
         'BUILD.d/x', 'x.BUILD/a', '_tmp_/_tmpx'])
             for _ in range(r.choice([0, 1, 4, 12]))}
    pkgs = {p for p in pkgs if not NOT_WALKED & set(p.split('/'))}
    pkgs = sorted({p.strip('/') for p in pkgs if r.random() < .85}) or ['foo']
    ext = [p for p in (path(r) for _ in range(3)) if r.random() < .6]
    files = {'MODULE.bazel': 'bazel_dep(name = "x", version = "1.0")\n'}
    targets = []
    e = 'bazel-out/../../../external/'
    for proj, l in (('', pkgs), ('@x', set(ext))):
        for p in l:
            free = [b for b in ('BUILD', 'BUILD.bazel') if not any(
                (q + '/').startswith((p + '/' if p else '') + b + '/')
                for q in l)]
            if not free: continue
            names = r.sample([n for n in NAMES], r.choice([1, 3, 8]))
            last = p.split('/')[-1]
            if last and last not in names: names.append(last)
            text = ''
            for n in names:
                text += '%s(name = "%s")\n' % (
                    r.choice(['cc_library', 'cc_test', 'filegroup']), n)
                targets.append((proj, p, n))
            base = 'EXT/x~1.0/' if proj else 'ws/main/'
            b = r.choice(free)
            files[base + (p + '/' if p else '') + b] = text
            if b == 'BUILD.bazel' and 'BUILD' in free and \
               r.random() < .3:                    # the other one counts
                files[base + (p + '/' if p else '') + 'BUILD'] = \
                    'cc_library(name = "not_this_one")\n'
                o.count('two_build_files')
            if r.random() < .2:     # never walked into
                files[base + (p + '/' if p else '') + r.choice(
                    ['_tmp', '.cache', '.git']) + r.choice(['', '/foo']) +
                    '/BUILD'] = 'cc_library(name = "not_here")\n'
    files['ws/main/MODULE.bazel'] = files.pop('MODULE.bazel')
    with Scratch() as d:
        # bazel-out points into a tree that has external/ three levels up.
        write_tree(d, {k.replace('EXT/', 'base/external/'): v
                       for k, v in files.items()})
        import os
        os.makedirs(d + '/base/external/x~1.0', exist_ok=True)
        os.makedirs(d + '/base/execroot/_main/bazel-out')
        os.symlink(d + '/base/execroot/_main/bazel-out',
                   d + '/ws/main/bazel-out')
        for _ in range(r.choice([0, 1, 3])):    # links are not followed
            l = d + '/ws/main/' + '/'.join(r.choice(pkgs).split('/')[
                :r.randrange(3)]) + '/' + r.choice(['bazel-bin', 'link', 'zz'])
            if os.path.isdir(os.path.dirname(l)) and not os.path.lexists(l):
                os.symlink(r.choice([d + '/ws/main', '.', d + '/base/external',
                                     'foo']), l)
                o.count('links_to_directories')
        for _ in range(4):
            text, tm, pm, rec = pattern(r, False, ('', ''))
            if r.random() < .7:     # of something that is there
                t = r.choice(targets)
                text, tm = r.choice([
                    (t[0] + '//' + t[1] + ':' + t[2], lambda u: u == t),
                    (t[0] + '//' + t[1] + ':all', lambda u: u[:2] == t[:2]),
                    (t[0] + '//' + (t[1] + '/' if t[1] else '') + '...',
                     lambda u: u[0] == t[0] and below(t[1], u[1])),
                    (t[0] + '//' + t[1] + ':' + t[2][:1] + '*',
                     lambda u: u[:2] == t[:2] and u[2].startswith(t[2][:1]))])
            res = run2([bant, 'list-targets', '-f', 'json', text],
                       cwd=d + '/ws/main')
            o.evaluations += 1
            o.sigs.add(sig((text, seed)))
            if res.crashed or res.timed_out or res.rc != 0:
                o.bad('command failed', '%r: %d %r' % (
                    text, res.rc, res.err[-500:]), (text, files))
                continue
            got = sorted(json.loads(l)['target'] for l in
                         res.out.decode('latin-1').splitlines())
            want = sorted(canonical(t) for t in targets if tm(t))
            o.count('selected', len(want))
            o.count('not_selected', len(targets) - len(want))
            if got != want:
                o.bad('list-targets selects something else',
                      '%r: additional %r missing %r' % (
                          text, sorted(set(got) - set(want))[:4],
                          sorted(set(want) - set(got))[:4]), (text, files))
            res = run2([bant, 'print', text], cwd=d + '/ws/main')
            got = sorted(re.findall(rb'^# .*?:\d+:\d\S* (.+)$', res.out, re.M))
            if res.rc != 0 or got != [w.encode() for w in want]:
                o.bad('print selects something else', '%r: %r instead of %r' %
                      (text, got[:4], want[:4]), (text, files))
    return o


def canonical(t):
    if t[1] and t[1].split('/')[-1] == t[2]: return t[0] + '//' + t[1]
    if not t[1] and t[0] and t[0][1:] == t[2]: return t[0]
    return '%s//%s:%s' % t


def main():
    c = Check('C10', 'Random patterns and visibilities, matched against '
              'targets around them (textual prefixes, parents, children, '
              'other repositories); commands on random projects with an '
              'external one. Distinct: by pattern (and project).',
              min_evaluations=20000, min_distinct=3000)
    binary = built(build.probe, 'util')
    bant = built(build.bant)
    c.pool(batch, [(binary, s, c.n(100, 400)) for s in c.seeds(c.n(64, 2000))])
    c.pool(command_case, [(bant, s)
                          for s in c.seeds(c.n(150, 3000), 'cmd')])
    c.finish()


main()
