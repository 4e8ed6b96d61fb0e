#!/usr/bin/env python3
"""Mutation campaign: small automatic changes to a scratch copy of the
repository; which of the quick checks of the properties a file is involved in
reports them?  Survivors are written to a log to be looked at.
usage: mutate.py WORKERS LOG [--seed N] [--n N] [--more 1] [--file substring]...
"""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASEDIR = os.environ.get('MUT_DIR', '/tmp/mut')
MAP = [
    ('frontend/scanner', 'C03 C07 C04 C05 C01'),
    ('frontend/linecolumn-map', 'C04 C05'),
    ('frontend/source-locator', 'C05 C04 C14 C31'),
    ('frontend/named-content', 'C05 C04 C14 C31'),
    ('frontend/parser', 'C07 C06 C03 C05 C01'),
    ('frontend/ast', 'C07 C06 C13 C05 C01'),
    ('frontend/print-visitor', 'C06 C30 C13 C14'),
    ('frontend/elaboration', 'C13 C07 C14 C01'),
    ('frontend/parsed-project', 'C14 C31 C21 C10 C30 C05 C20 C29 C18 C15 C01'),
    ('types-bazel', 'C09 C10 C18 C15 C14'),
    ('bant/workspace', 'C21 C20 C31 C29'),
    ('tool/workspace', 'C21 C20 C19 C29'),
    ('explore/query-utils', 'C14 C15 C16 C17 C22 C13'),
    ('explore/dependency-graph', 'C15 C16 C17 C18 C21 C29'),
    ('explore/aliased-by', 'C15 C17 C16'),
    ('explore/header-providers', 'C16 C17 C31 C29 C01'),
    ('tool/dwyu', 'C17 C31 C16 C29 C01'),
    ('tool/edit-callback', 'C17 C18'),
    ('tool/canon-targets', 'C18 C31'),
    ('tool/compilation-db', 'C22 C29'),
    ('util/table-printer', 'C19 C20'),
    ('output-format', 'C19 C20'),
    ('cli-commands', 'C20 C14 C30 C15 C16 C19 C21 C22 C06 C13 C17 C18'),
    ('bant/bant.cc', 'C20 C19 C15'),
    ('bant/session', 'C20 C05'),
    ('util/file-utils', 'C12 C11 C29'),
    ('util/filesystem-prewarm', 'C23 C29'),
    ('util/glob-match', 'C11 C10'),
    ('util/stat', 'C20'),
    ('util/arena', 'C02'),
    ('util/disjoint', 'C08'),
    ('run-clang-tidy-cached', 'C24 C25 C26 C27'),
]
SKIP = ('_test', 'testutil')


def mask(src):
    """Same length, with comments, string and character literals blanked."""
    out, i = list(src), 0
    pat = re.compile(r'//[^\n]*|/\*.*?\*/|R"\((?:.*?)\)"|"(?:\\.|[^"\\\n])*"|'
                     r"'(?:\\.|[^'\\\n])+'|^[ \t]*#[^\n]*(?:\\\n[^\n]*)*", re.S | re.M)
    for m in pat.finditer(src):
        for k in range(m.start(), m.end()):
            if out[k] != '\n': out[k] = '\x01'
    return ''.join(out)


def mutations(src):
    """-> list of (start, end, replacement, kind)"""
    m = mask(src)
    out = []
    def add(rx, fn, kind):
        for x in re.finditer(rx, m, re.M):
            r = fn(x)
            if r is not None: out.append((x.start(), x.end(), r, kind))
    swap = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '=='}
    add(r'(?<= )(<=|>=|==|!=|<|>)(?= [^=])', lambda x: swap[x.group(1)], 'rel')
    add(r'(?<= )(&&|\|\|)(?=\s)', lambda x: '||' if x.group(1) == '&&' else '&&', 'logic')
    add(r'(?<=[\w)\]] )([+-])(?= [\w(*])', lambda x: '-' if x.group(1) == '+' else '+', 'arith')
    add(r'(?<=[(\s])!(?=[\w(*])(?!=)', lambda x: '', 'not')
    add(r'\b(true|false)\b', lambda x: 'false' if x.group(1) == 'true' else 'true', 'bool')
    add(r'(?<![\w.])(\d+)(?![\w.xX])', lambda x: str(int(x.group(1)) + 1), 'const')
    add(r'\b(continue|break);', lambda x: ('break' if x.group(1) == 'continue' else 'continue') + ';', 'loop')
    add(r'\bif \((?!constexpr)([^;{}]*?)\) (?=\{|return|continue|break)',
        lambda x: 'if (false) ' if ' = ' not in x.group(1) else None, 'if-never')
    add(r'\bif \((?!constexpr)([^;{}]*?)\) (?=\{|return|continue|break)',
        lambda x: 'if (true) ' if ' = ' not in x.group(1) else None, 'if-always')
    # statements
    def stmt(x):
        t = x.group(2)
        if re.match(r'(return|using|const |auto |static |typedef|class |struct '
                    r'|case |else|friend|virtual|explicit|delete |template|public|private|break|continue)', t): return None
        if t.count('(') != t.count(')') or '{' in t or '}' in t: return None
        if not re.match(r'[\w:>.*()\[\]\-]+( [+\-|&]?= |\(|\+\+|--|\s*<<|;)|(\+\+|--)\w|\*\w', t): return None
        if re.match(r'[\w:<>,* ]+ \w+(;| =|\()', t) and not re.match(r'[\w.>\-]+ (=|\+=)', t): return None
        return x.group(1) + '{}' if not t.startswith('for') else None
    add(r'^([ \t]+)([^\n]*;)(?=\s*$)', stmt, 'del')
    # return value
    add(r'\breturn ([^;{}\n]+);', lambda x: 'return {};' if x.group(1) not in ('true', 'false', '0') else None, 'ret')
    # drop else branch keyword condition
    add(r'\} else if \(([^;{}]*?)\) \{', lambda x: '} else if (false) {', 'elif')
    # first argument of find/starts_with style +1
    res = []
    for (a, b, r, k) in out:
        if '\x01' in m[a:b] and k not in ('if-never', 'if-always', 'del', 'ret', 'elif'): continue
        if src[a:b] == r: continue
        res.append((a, b, r, k))
    return res


PAIRS = [('starts_with', 'ends_with'), ('find_first_of', 'find_last_of'),
         ('front', 'back'), ('lower_bound', 'upper_bound'), ('min', 'max'),
         ('any_of', 'all_of'), ('left', 'right'), ('start', 'end'),
         ('begin', 'end'), ('line', 'col'), ('prefix', 'suffix'),
         ('include_pattern_', 'exclude_pattern_'), ('hdrs', 'srcs'),
         ('path', 'project'), ('start_line', 'end_line'), ('name', 'rule'),
         ('push_back', 'emplace_front'), ('lhs', 'rhs'), ('i', 'j'),
         ('width', 'height'), ('AsString', 'AsInt'), ('next', 'prev'),
         ('target', 'dep'), ('out', 'info'), ('text', 'content'),
         ('remove_prefix', 'remove_suffix'), ('first', 'second'),
         ('insert', 'erase'), ('include', 'exclude'), ('kAdd', 'kRemove')]


def more_mutations(src):
    """Less local ones: other functions, types too small, state that stays,
    copies instead of references, parts of conditions, elements of lists."""
    m = mask(src)
    out = []

    def add(a, b, r, kind):
        if src[a:b] != r: out.append((a, b, r, kind))
    for x, y in PAIRS:
        for a, b in ((x, y), (y, x)):
            for f in re.finditer(r'(?<![\w])%s(?!\w)' % a, m):
                add(f.start(), f.end(), b, 'pair')
    for f in re.finditer(r'^( +)((?:const )?(?:absl::|std::)?[\w:]+(?:<[\w:<>, *]+>)? \w+(?: = [^;\n]+)?;)', m, re.M):
        if re.match(r'(return|using|delete|static|typedef|goto|throw|case|break|continue|const std::string_view)\b', f.group(2)): continue
        t = src[f.start(2):f.end(2)]
        add(f.start(2), f.end(2), 'static ' + t, 'static')
    for f in re.finditer(r'(?<![\w:<])(size_t|int|uint32_t|ptrdiff_t|int64_t|unsigned)(?= \w+(?: =|;|,|\)))', m):
        for t in ('unsigned char', 'unsigned short'):
            add(f.start(), f.end(), t, 'narrow')
    for f in re.finditer(r'(?<=auto )&(?=\w|\[)', m):
        add(f.start(), f.end(), '', 'copy')
    for f in re.finditer(r'(?<=[>\w]) &(?=\w+ = )', m):
        add(f.start(), f.end(), ' ', 'copy')
    # conjuncts
    for f in re.finditer(r'(\(|&&|\|\||return|=) ?([^()&|;{}=]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()&|;{}=]*)*) (&&|\|\|)\s', m):
        add(f.start(2), f.end(3), '', 'conjunct')
    for f in re.finditer(r'\s(&&|\|\|)\s+([^()&|;{}]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()&|;{}]*)*)(?=\)|;|&&|\|\|)', m):
        add(f.start(), f.end(), '', 'conjunct')
    for f in re.finditer(r' [+-] 1\b', m):
        add(f.start(), f.end(), '', 'one')
    # literals
    for f in re.finditer(r'\x01+', m):
        t = src[f.start():f.end()]
        if t.startswith('"') and len(t) > 2:
            pre = src[:f.start()].rstrip(' ')
            if pre.endswith(('CHECK(', '#include')): continue
            if re.search(r'[a-z] [a-z]', t): continue   # messages
            add(f.start(), f.end(), '""', 'literal')
            if len(t) > 3 and t[-2] != '\\' and t[-3] != '\\':
                add(f.start(), f.end(), t[:-2] + '"', 'literal')
            after = src[f.end():]
            if after.startswith(','):
                k = len(after) - len(after[1:].lstrip())
                add(f.start(), f.end() + k, '', 'element')
        elif t.startswith("'") and len(t) == 3:
            add(f.start(), f.end(), "'%s'" % {'/': ':', ':': '/', '"': "'", '\n': ' '}.get(t[1], '~'), 'char')
    for f in re.finditer(r'^ *case [\w:\x01]+:(?= *$| //)', m, re.M):
        add(f.start(), f.end(), '', 'case')
    return out


def sh(cmd, timeout=None, **kw):
    import signal
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors='replace', start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', '', ''


class Worker:
    def __init__(self, k):
        self.d = '%s/w%d' % (BASEDIR, k)
        os.makedirs(self.d, exist_ok=True)
        self.repo, self.b = self.d + '/repo', self.d + '/build'
        if os.path.exists(self.repo): shutil.rmtree(self.repo)
        subprocess.run(['cp', '-a', '/repo', self.repo], check=True)
        self.env = dict(os.environ, VERIF_REPO=self.repo, VERIF_BUILD=self.b,
                        VERIF_EVIDENCE=self.d + '/ev', VERIF_SEED='1',
                        VERIF_TIER='quick')
        rc, o, e = sh([sys.executable, V + '/tools/setup.py'], env=self.env)
        assert rc == 0, e
        self.base = None

    def snapshot(self):
        return {p for s in ('obj', 'bin') for p in glob.glob('%s/%s/*' % (self.b, s))}

    def run(self, file, mut, checks):
        a, b, r, kind = mut
        path = os.path.join(self.repo, file)
        orig = open(path).read()
        if self.base is None: self.base = self.snapshot()
        deps = {p: open(p).read() for p in self.base if p.endswith('.deps')}
        try:
            open(path, 'w').write(orig[:a] + r + orig[b:])
            code = ('import sys;sys.path.insert(0,%r)\nfrom vlib import build\n'
                    'try: build.bant("asan")\nexcept build.BuildError as e: sys.exit(9)' % V)
            if 'scripts/' in file:
                code = ('import subprocess,sys;sys.exit(9 if subprocess.run(["g++","-std=c++23",'
                        '"-fsyntax-only","-w",%r]).returncode else 0)' % path)
            rc, o, e = sh([sys.executable, '-c', code], env=self.env, timeout=600)
            if rc == 9: return 'nobuild', ''
            hist = []
            for c in checks:
                t0 = time.time()
                rc, o, e = sh([sys.executable, '%s/checks/%s.py' % (V, c.lower())],
                              env=self.env, timeout=900)
                hist.append('%s=%s/%ds' % (c, rc, time.time() - t0))
                if rc == 1 and 'VIOLATION property=' + c in o:
                    return 'caught', ' '.join(hist)
            return ('noanswer' if any('=3/' in h or 'timeout' in h for h in hist)
                    else 'SURVIVED'), ' '.join(hist)
        finally:
            open(path, 'w').write(orig)
            for p in self.snapshot() - self.base:
                try: os.unlink(p)
                except OSError: pass
            for p, t in deps.items(): open(p, 'w').write(t)


def main():
    argv = sys.argv[1:]
    nw, log = int(argv[0]), argv[1]
    seed, n, files, ops = 1, 200, [], mutations
    i = 2
    while i < len(argv):
        if argv[i] == '--seed': seed = int(argv[i + 1])
        elif argv[i] == '--n': n = int(argv[i + 1])
        elif argv[i] == '--more': ops = more_mutations if argv[i + 1] != '0' else ops
        elif argv[i] == '--file': files.append(argv[i + 1])
        i += 2
    allm = []
    for key, checks in MAP:
        for p in sorted(glob.glob('/repo/bant/**/*', recursive=True) +
                        glob.glob('/repo/scripts/*')):
            rel = os.path.relpath(p, '/repo')
            if key not in rel or not rel.endswith(('.cc', '.h')): continue
            if any(s in rel for s in SKIP): continue
            if key == 'bant/workspace' and 'tool' in rel: continue
            if files and not any(f in rel for f in files): continue
            src = open(p).read()
            for mu in ops(src):
                allm.append((rel, mu, checks.split()))
    rnd = random.Random(seed)
    rnd.shuffle(allm)
    if ops is more_mutations:   # as many of each kind
        seen = {}
        for x in allm: seen.setdefault(x[1][3], []).append(x)
        allm = [x for _, x in sorted(
            ((i, x) for l in seen.values() for i, x in enumerate(l)),
            key=lambda y: y[0])]
    done = set()
    if os.path.exists(log):
        for ln in open(log):
            d = json.loads(ln); done.add((d['file'], d['line'], d['new']))
    total = len(allm)
    allm = allm[:n]
    print(total, 'mutants,', len(allm), 'taken', flush=True)
    ws = queue.Queue()
    with ThreadPoolExecutor(nw) as ex:
        for w in ex.map(Worker, range(nw)): ws.put(w)
    lock = threading.Lock()
    st = {}
    def one(job):
        rel, mu, checks = job
        src = open('/repo/' + rel).read()
        line = src.count('\n', 0, mu[0]) + 1
        ls, le = src.rfind('\n', 0, mu[0]) + 1, src.find('\n', mu[1])
        old, new = src[ls:le].strip(), (src[ls:mu[0]] + mu[2] + src[mu[1]:le]).strip()
        if (rel, line, new) in done: return
        w = ws.get()
        try: res, hist = w.run(rel, mu, checks)
        finally: ws.put(w)
        with lock:
            st[res] = st.get(res, 0) + 1
            with open(log, 'a') as f:
                f.write(json.dumps(dict(file=rel, line=line, kind=mu[3], old=old,
                                        new=new, result=res, hist=hist)) + '\n')
            print(st, flush=True)
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, allm))


main()
