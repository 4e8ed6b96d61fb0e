"""C17: dwyu on generated projects; the suggestions are judged, applied and
dwyu run again until nothing is suggested anymore."""
import os, random, re
from common import *
from vlib import gen_ws
from vlib.gen_ws import canonical, relative, spellings, Raw
from vlib.headers import provided, lookup, unique

CC = ('cc_library', 'cc_binary', 'cc_test')
KNOWN = CC + ('alias', 'cc_proto_library', 'grpc_cc_library')
DECOYS = ['decoy.h', 'no/such/thing.h']


# -- sources
def include_line(r, path):
    form = r.randrange(12)
    if form < 6: return '#include "%s"' % path
    if form == 6: return '  #  include   "%s"  // for stuff' % path
    if form == 7: return '#include"%s"' % path
    if form == 8: return '\t#include "%s"\r' % path
    if form == 9: return '#ifdef SOMETHING\n#include "%s"\n#endif' % path
    if form == 10: return '#include "%s"  /* why "this" */' % path
    return '#include "%s"  // "quoted' % path


def noise(r, path):
    """Something that does not include path, but might be mistaken."""
    f = r.randrange(19)
    return ['// #include "%s"', '/* #include "%s" */',
            '/* some\n#include "%s"\n comment */', '#include <%s>',
            'const char *a = "\\n#include \\"%s\\"\\n";',
            'int x;  // it\'s a "quote, #include "%s"',
            "char c = '\"';  // %s", "char d = '\\\"';  // %s",
            'const char *b = "// %s";', 'const char *e = "/* %s";',
            'const char *f = "a\\\\";  // "%s"', '// /* %s',
            '/* " %s */', '/* don\'t " // " */  // "%s',
            '#define X "%s"', '//#include "%s"',
            '// f\xfcr "caf\xe9 %s', '/* \xe4\xf6 " %s */',
            'const char *g = "\xe9\xff %s";'][f].replace('%s', path)


def source(r, includes, others):
    parts = []
    for i in includes:
        parts.append(include_line(r, i))
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        parts.insert(r.randrange(len(parts) + 1),
                     noise(r, r.choice(others or DECOYS)))
    if r.random() < .2: parts.insert(0, '#pragma once')
    return '\n'.join(parts) + r.choice(['\n', '', '\n\nint main() {}\n'])


# -- projects
def visibility(r, ws, p):
    if r.random() < .5: return ['//visibility:public']
    if r.random() < .3: return ['//visibility:private']
    if r.random() < .1: return []   # the same
    if r.random() < .15: return ['//tools:some_group']
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice([':__pkg__', ':__subpackages__'])
        if r.random() < .2:
            # From whichever project
            q = r.choice(ws.packages)
            out.append((q.project or '@') + '//' + q.path + k)
            continue
        q = r.choice([q for q in ws.packages if q.project == p.project])
        out.append('//' + q.path + k if q.path or r.random() < .9 else k)
    return out


def sees(pkg, t):
    """Target in package pkg is allowed to depend on t"""
    if t.attrs.get('deprecation'): return False
    if t.pkg is pkg: return True
    # Has nothing that could be depended on, whatever it says.
    if t.name == 'protobuf_headers': return False
    vis = t.attrs.get('visibility', t.pkg.default_visibility)
    if vis is None: return True
    for v in vis:
        path, name = v.split(':')
        project = t.pkg.project
        if path.startswith('@'):
            project, path = path.split('//')
            if project == '@': project = ''
        else:
            path = path[2:] if path else t.pkg.path
        if v == '//visibility:private': continue
        if name == '__pkg__':
            if pkg.ctx == (project, path): return True
        elif name == '__subpackages__':
            if pkg.project == project and (
                    path == '' or pkg.path == path or
                    pkg.path.startswith(path + '/')): return True
        else: return True
    return False


class Truth:
    """What is known once the packages are loaded."""
    def __init__(self, ws, loaded):
        self.by = {t.label: t for t in ws.targets if t.pkg.ctx in loaded}
        self.index = provided(ws, loaded)

    def actual(self, l):
        for _ in range(len(self.by) + 1):
            t = self.by.get(l)
            if t is None or t.rule not in KNOWN: return None
            if t.rule != 'alias': return t
            l = t.actual
        return None

    def removable(self, l):
        t = self.actual(l)
        if t is None or t.attrs.get('alwayslink', False) is not False:
            return False
        return t.rule != 'cc_library' or bool(t.attrs.get('hdrs'))

    def visible(self, user, l):
        t = self.by.get(l)
        return t is not None and sees(user.pkg, t)

    def testonly_ok(self, user, l):
        t = self.actual(l)
        return t is None or not t.attrs.get('testonly') or \
            user.rule == 'cc_test' or bool(user.attrs.get('testonly'))


def loaded_packages(ws, match_pkg, match):
    by = {t.label: t for t in ws.targets}
    pk = {p.ctx for p in ws.packages if match_pkg(p.ctx)}
    todo = [l for l in by if match(l)]
    seen = set(todo)
    while todo:
        l = todo.pop()
        pk.add(l[:2])
        for x in gen_ws.all_deps(by[l]):
            if (x[0], x[1]) in {p.ctx for p in ws.packages}:
                pk.add((x[0], x[1]))
            if x in by and x not in seen:
                seen.add(x)
                todo.append(x)
    return pk


def project(r):
    ws = gen_ws.Ws(r, fancy=r.random() < .3)
    for p in ws.packages:
        p.default_visibility = None
        if r.random() < .4:
            p.default_visibility = visibility(r, ws, p)
            p.head = 'package(default_visibility = [%s])\n' % ', '.join(
                '"%s"' % v for v in p.default_visibility)
    n = r.choice([2, 4, 8, 16, 24])
    count = 0
    shared = r.random() < .4    # headers in several libraries
    special = r.choice([0, .05, .15])
    chains = r.random() < .15   # aliases of aliases of aliases
    for _ in range(n):
        p = r.choice(ws.packages)
        name = ws.fresh_name(p)
        k = r.random()
        if k < (.5 if chains else .12) and ws.targets:
            of = r.choice(ws.targets)
            if chains:
                of = next((t for t in reversed(ws.targets) if t.rule in
                           ('alias', 'cc_library')), of)
            sp = spellings(of.label, p.ctx)
            if sp and (of.label[0] or not p.project) and of.rule in ('cc_library', 'alias', 'cc_proto_library'):
                a = ws.add_target(p, 'alias', name)
                a.actual = of.label
                a.attrs['actual'] = r.choice(sp)
                if r.random() < .5: a.attrs['visibility'] = visibility(r, ws, p)
                if r.random() < special: a.attrs['deprecation'] = 'use other'
                continue
        if k < .18:
            s = 'p%d.proto' % count
            count += 1
            lib = ws.add_target(p, 'proto_library', name, srcs=[s])
            t = ws.add_target(p, 'cc_proto_library', ws.fresh_name(p),
                              deps=[':' + name])
            t.proto = (lib, 'cc_proto_library')
            t.deps = [lib.label]
            if r.random() < .5: t.attrs['visibility'] = visibility(r, ws, p)
            continue
        rule = r.choice(['cc_library'] * 6 + ['cc_binary', 'cc_test'])
        if rule == 'cc_library' and r.random() < .04 and \
           not any(t.name == 'protobuf_headers' for t in p.targets):
            name = 'protobuf_headers'
        attrs = {}
        if rule == 'cc_library':
            hdrs = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                if shared and r.random() < .4:
                    near = [h.lstrip(":") for t in p.targets
                            for h in t.attrs.get('hdrs', [])]
                    if near:
                        hdrs.append(r.choice(near))
                        continue
                hdrs.append('%s%s%d.h' % (
                    r.choice(['', '', '', 'include/', 'sub/', 'a/b/']),
                    r.choice(['foo', 'bar', 'x-y']), count))
                count += 1
            hdrs = unique(hdrs)
            if hdrs or r.random() < .5:
                attrs['hdrs'] = [r.choice(['', '', '', ':']) + h for h in hdrs]
            if r.random() < .12:
                attrs['textual_hdrs'] = ['t%d.inc' % count]
                count += 1
            if r.random() < .15:
                k = r.randrange(4)
                if k == 0: attrs['include_prefix'] = r.choice(['yolo', 'a/z'])
                if k == 1: attrs['strip_include_prefix'] = r.choice(
                    ['include', 'sub', '/' + p.dir + 'include'])
                if k > 1: attrs['includes'] = r.sample(
                    ['include', 'sub', '.', 'a'], r.choice([1, 2]))
            if r.random() < special:
                attrs['alwayslink'] = r.choice(
                    [True, 1, Raw('SOME_UNKNOWN'), Raw('foo()'), False])
            if r.random() < special: attrs['deprecation'] = 'old'
            if r.random() < .6: attrs['visibility'] = visibility(r, ws, p)
        if r.random() < special * 2 and rule != 'cc_test':
            attrs['testonly'] = r.choice([True, 1, False])
        srcs = []
        for _ in range(r.choice([0, 1, 1, 2])):
            srcs.append('%ss%d%s' % (r.choice(['', '', 'sub/']), count,
                                     r.choice(['.cc', '.cc', '.h', '.c'])))
            count += 1
        if srcs or r.random() < .3: attrs['srcs'] = srcs
        t = ws.add_target(p, rule, name, **attrs)
        t.unknown = False
    ts = [t for t in ws.targets if t.rule in CC]
    index = provided(ws, {p.ctx for p in ws.packages})
    everything = sorted(index)
    ws.contents = {}
    ws.genrules = 0
    for _ in range(r.choice([0, 0, 1]) if special else 0):
        p = r.choice(ws.packages)
        ws.add_target(p, 'genrule', ws.fresh_name(p), cmd='',
                      outs=['orphan%d.h' % i for i in range(2)])
    for t in ts:
        # Dependencies: some right, some not.
        files = [x.lstrip(':') for a in ('srcs', 'hdrs', 'textual_hdrs')
                 for x in t.attrs.get(a, [])]
        want = []
        if everything:
            want = [r.choice(everything) for _ in range(
                r.choice([0, 1, 2, 3, 5]))]
        deps = []
        for h in want:
            if r.random() < .7: deps.append(r.choice(sorted(index[h])))
        libs = [x for x in ws.targets if x is not t and x.rule in
                ('cc_library', 'alias', 'cc_proto_library')]
        while libs and r.random() < .45: deps.append(r.choice(libs).label)
        if r.random() < special: deps.append(('', t.pkg.path, 'missing'))
        if r.random() < special: deps.append(('@unknown', 'x', 'y'))
        if r.random() < special:
            other = [x for x in ws.targets if x.rule in (
                'proto_library', 'cc_test', 'cc_binary', 'genrule')]
            if other: deps.append(r.choice(other).label)
        deps = [d for d in unique(deps) if d != t.label and
                spellings(d, t.pkg.ctx)]
        r.shuffle(deps)
        if deps and r.random() < .08: deps.append(r.choice(deps))
        if deps or r.random() < .5: ws.dep_on(t, deps)
        if t.deps and r.random() < .15:
            t.keep = set(r.sample(t.attrs['deps'],
                                  r.randrange(1, len(t.attrs['deps']) + 1)))
        # Sources
        if t.pkg.project:
            want = [h for h in want if all(l[0] for l in index[h])]
        own = [t.pkg.dir + f for f in files] + files
        for f in files:
            inc = [h for h in want if r.random() < .6]
            if own and r.random() < .5: inc.append(r.choice(own))
            for i, h in enumerate(inc):
                k = r.random()
                if k < .08 and '/' in h: h = h.split('/', 1)[1]
                elif k < .12: h = 'some/' + h
                elif k < .2 and t.pkg.dir and h.startswith(t.pkg.dir):
                    h = h[len(t.pkg.dir):]
                inc[i] = h
            if r.random() < special:
                inc.append(r.choice(
                    ['unknown.h', 'un/known/x.h', 'foo0.h'] +
                    [x.pkg.dir + f for x in ws.targets if x.rule == 'genrule'
                     for f in x.attrs['outs'] if f.startswith('orphan')]))
            r.shuffle(inc)
            path = t.pkg.dir + f
            if (t.pkg.ctx, path) in ws.contents: continue
            generated = r.random() < special
            if generated:
                # spelled as it is or with colon
                g = ws.add_target(t.pkg, 'genrule', ws.fresh_name(t.pkg),
                                  outs=[r.choice(['', ':']) + f], cmd='')
                ws.genrules += 1
            if r.random() < (.6 if generated else special / 2):
                continue        # not there
            ws.contents[(t.pkg.ctx, path)] = inc
            text = source(r, inc, everything + DECOYS).encode('latin-1')
            if t.pkg.project:
                ws.ext_files[ws.repos[t.pkg.project][0] + '/' + path] = text
            else:
                where = r.choice(['', '', '', '', 'bazel-bin/',
                                  'bazel-genfiles/'])
                ws.files[where + path] = text
        if r.random() < special:
            a = r.choice(['srcs', 'hdrs'])
            t.unknown = True
            v = t.attrs.get(a, [])
            if a == 'srcs': t.attrs[a] = Raw(ws.list_text(v) + r.choice(
                [' + SOMETHING', ' + foo()', ' + [x for x in y]',
                 ' + select({":opt": ["x.cc"]})']))
            else: t.unknown = False
    return ws


def needs(ws, truth, t):
    """-> list of provider sets, all sources and headers known,
    None if it is not determined what is meant."""
    known = not t.unknown
    files = []
    for a in ('srcs', 'hdrs', 'textual_hdrs'):
        v = t.attrs.get(a, [])
        if isinstance(v, Raw):
            v = re.findall(r'"([^"]*)"', str(v).split(' select')[0])
        files += v
    plain = [f.lstrip(':') for f in files]
    own = set(plain) | {t.pkg.dir + f for f in plain}
    out, vague = [], False
    for f in plain:
        inc = ws.contents.get((t.pkg.ctx, t.pkg.dir + f))
        if inc is None:
            known = False
            continue
        for i in inc:
            if i in own: continue
            found = lookup(truth.index, i) or \
                lookup(truth.index, t.pkg.dir + i)
            if not found: known = False
            elif len({frozenset(truth.index[x]) for x in found}) > 1:
                vague = True    # several equally good ones
            elif t.label not in truth.index[found[0]]:
                out.append(truth.index[found[0]])
    # External projects do not use anything of the main one.
    if t.pkg.project and any(not l[0] for p in out for l in p): vague = True
    return out, known, vague


EDIT = re.compile(r"buildozer '(add|remove|replace) deps ([^ ']+)' (\S+)$")


def judge(o, ws, truth, edits, checked, ignore_keep, data):
    """edits: target label -> (added, removed as written)"""
    for t in checked:
        add, rem = edits.pop(t.label, ([], []))
        need, known, vague = needs(ws, truth, t)
        written = t.attrs.get('deps', [])
        declared = dict(zip(written, t.deps))
        have = set(t.deps)
        if len(set(add)) != len(add) or \
           any(rem.count(x) > written.count(x) for x in set(rem) & set(written)):
            o.bad('same suggestion twice', '%s: %r %r' % (
                canonical(t.label), add, rem), data)
            continue
        by_name = {}
        for l in truth.by:
            by_name[relative(l, t.pkg.ctx)] = l
        ok = True
        for x in rem:
            if x not in declared:
                o.bad('removes something not there', '%s from %s' % (
                    x, canonical(t.label)), data)
                ok = False
        for x in add:
            if x not in by_name:
                o.bad('adds something unknown', '%s to %s' % (
                    x, canonical(t.label)), data)
                ok = False
        if not ok: continue
        gone = {declared[x] for x in rem}
        new = {by_name[x] for x in add}
        final = (have - gone) | new
        name = canonical(t.label)
        o.count('added', len(new))
        o.count('removed', len(gone))
        o.count('checked')
        # what must not be
        for x in rem:
            l = declared[x]
            if not known: why = 'not everything is known'
            elif not truth.removable(l): why = 'it might always be needed'
            elif x in t.keep and not ignore_keep: why = 'it is to be kept'
            else: continue
            o.bad('removal although ' + why, '%s from %s' % (x, name), data)
        for l in new:
            if l in have: why = 'it is there'
            elif l == t.label: why = 'it is the target'
            elif not truth.visible(t, l): why = 'it is not visible'
            elif not truth.testonly_ok(t, l): why = 'it is for tests'
            elif not vague and not any(
                    l in p and not any(truth.visible(t, d) and d in p
                                       for d in have) for p in need):
                why = 'nothing needs it'
            else: continue
            o.bad('addition although ' + why, '%s to %s' % (
                canonical(l), name), data)
        if vague:
            o.count('vague')
            continue
        for p in need:
            if p & have and not p & final:
                o.bad('header not available anymore', '%s: %s' % (
                    name, sorted(map(canonical, p))), data)
        # what must be
        if known:
            o.count('all_known')
            for x, l in declared.items():
                if l in gone or any(l in p for p in need): continue
                if not truth.removable(l):
                    o.count('not_removable')
                    continue
                if x in t.keep and not ignore_keep:
                    o.count('kept')
                    continue
                o.bad('not needed, but not removed', '%s of %s' % (x, name),
                      data)
        for p in need:
            can = {l for l in p if truth.visible(t, l)}
            if len(can) == 1 and not p & have and \
               truth.testonly_ok(t, list(can)[0]) and not p & final:
                o.bad('needed, but not added', '%s: %s' % (
                    name, canonical(list(can)[0])), data)
            o.count('need_%s' % ('available' if p & have else 'missing'))
    for l, (add, rem) in edits.items():
        o.bad('suggestion for another target', '%s: %s %s' % (
            canonical(l), add, rem), data)


def apply(ws, edits):
    r = ws.r
    by = {t.label: t for t in ws.targets}
    for l, (add, rem) in edits.items():
        t = by[l]
        pairs = [(w, d) for w, d in zip(t.attrs.get('deps', []), t.deps)
                 if w not in rem]
        names = {relative(x, t.pkg.ctx): x for x in by}
        for x in add: pairs.append((x, names[x]))
        t.attrs['deps'] = [w for w, _ in pairs]
        t.deps = [d for _, d in pairs]


def below(base, p):
    return base == '' or p == base or p.startswith(base + '/')


def case(bant, seed):
    o = Out()
    r = random.Random(seed)
    ws = project(r)
    if not ws.targets: return o
    text, match_pkg, match = '//...', lambda c: c[0] == '', \
        lambda l: l[0] == ''
    if r.random() < .25:
        t = r.choice(ws.targets)
        proj, path, name = t.label
        k = r.randrange(3)
        if k == 0:
            text = proj + '//' + (path + '/' if path else '') + '...'
            match_pkg = match = lambda l: l[0] == proj and below(path, l[1])
        elif k == 1:
            text = proj + '//' + path + ':all'
            match_pkg = match = lambda l: l[:2] == (proj, path)
        else:
            text = '%s//%s:%s' % t.label
            match_pkg = lambda c: c == (proj, path)
            match = lambda l: l == t.label
    ignore_keep = r.random() < .2
    args = ['-k'] if ignore_keep else []
    if r.random() < .2: args.append(r.choice(['-v', '-vv', '-vvv']))
    last = None
    o.count('genrules', ws.genrules)
    for step in range(6):
        with Scratch() as d:
            cwd = ws.write(d)
            data = ('%s %s step %d' % (text, args, step),
                    {k: v if isinstance(v, str) else v.decode('latin-1')
                     for k, v in ws.tree().items()})
            res = run2([bant, 'dwyu'] + args + [text], cwd=cwd)
        o.evaluations += 1
        o.sigs.add(sig((seed, step, res.out)))
        if res.crashed or res.timed_out:
            o.bad('crash ' + res.crash_key(), res.err[-500:].decode(
                'latin-1'), data)
            return o
        names = {canonical(t.label): t.label for t in ws.targets}
        edits = {}
        for line in res.out.decode('latin-1').splitlines():
            m = EDIT.match(line)
            if not m or m.group(1) == 'replace' or m.group(3) not in names:
                o.bad('not a suggestion', line, data)
                return o
            e = edits.setdefault(names[m.group(3)], ([], []))
            e[m.group(1) == 'remove'].append(m.group(2))
        if res.rc != (3 if edits else 0):
            o.bad('exit code', '%d with %d suggestions: %r' % (
                res.rc, len(edits), res.err[-300:]), data)
            return o
        loaded = loaded_packages(ws, match_pkg, match)
        truth = Truth(ws, loaded)
        checked = [t for t in ws.targets if t.rule in CC and match(t.label)]
        if loaded == last and edits:
            o.bad('suggestions do not converge', '%r' % edits, data)
            return o
        judge(o, ws, truth, dict(edits), checked, ignore_keep, data)
        if o.violations: return o
        if not edits:
            o.count('converged')
            o.count('after_%d' % min(step, 3))
            break
        apply(ws, edits)
        last = loaded
    else:
        o.bad('suggestions do not converge', 'after 6 steps', data)
    o.sample('%s: %d targets, %d steps' % (text, len(ws.targets), step))
    return o


def many(bant, n):
    """The exit code tells if there is any suggestion."""
    o = Out()
    r = random.Random(n)
    used = [0] * max(1, n // 40)
    for i in range(n): used[r.randrange(len(used))] += 1
    add = n % 2
    text, files = [], {}
    for i in range(max(used)):
        text.append('cc_library(name = "l%d", hdrs = ["l%d.h"])' % (i, i))
    for i, k in enumerate(used):
        files['s%d.cc' % i] = ''.join('#include "l%d.h"\n' % j
                                      for j in range(k) if add)
        text.append('cc_library(name = "t%d", srcs = ["s%d.cc"], deps = [%s])'
                    % (i, i, '' if add else
                       ', '.join('":l%d"' % j for j in range(k))))
    files['BUILD'] = '\n'.join(text)
    files['WORKSPACE'] = ''
    with Scratch() as d:
        core.write_tree(d, files)
        res = run2([bant, 'dwyu', '//...'], cwd=d, timeout=120)
    o.evaluations += 1
    o.sigs.add(sig(n))
    if res.crashed or res.timed_out:
        o.bad('crash ' + res.crash_key(), res.err[-500:].decode('latin-1'), n)
        return o
    got = sorted(res.out.decode('latin-1').splitlines())
    want = sorted("buildozer '%s deps :l%d' //:t%d" % (
        'add' if add else 'remove', j, i)
        for i, k in enumerate(used) for j in range(k))
    if got != want:
        o.bad('wrong number of suggestions', '%d instead of %d' % (
            len(got), n), files)
    if res.rc != (3 if n else 0):
        o.bad('exit code', '%d with %d suggestions' % (res.rc, n), n)
    o.count('suggestions_of_many', n)
    return o


def main():
    c = Check('C17', 'Random projects of libraries, binaries, tests, aliases '
              'and protos, with visibility, testonly, deprecation, alwayslink '
              'and keep comments, and sources including headers of them, '
              'their own and unknown ones. Distinct: project, step and '
              'suggestions.',
              min_evaluations=500, min_distinct=400,
              assumptions=['No raw strings in the sources; no adjacent string '
                           'parts in a dependency list with unknown values',
                           'A target without visibility is visible; '
                           'package_groups contain everything'])
    bant = built(build.bant)
    c.pool(case, [(bant, s) for s in c.seeds(c.n(700, 30000))])
    c.pool(many, [(bant, n) for n in
                  [0, 1, 127, 128, 255, 256, 257, 512, 768, 1000, 1024, 2048] +
                  c.n([], [65535, 65536, 65537])])
    c.finish()


if __name__ == '__main__': main()
