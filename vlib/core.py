"""Shared machinery of all checks: running cases in parallel, three-valued
verdicts, known findings, evidence files."""
import hashlib, json, multiprocessing, os, random, resource, selectors, shutil
import signal, subprocess
import sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Stack frames are several times larger with sanitizers.
_soft, _hard = resource.getrlimit(resource.RLIMIT_STACK)
if _hard == resource.RLIM_INFINITY or _hard > (64 << 20):
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, _hard))

EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:'
                    'allocator_may_return_null=1:handle_abort=0:'
                    'detect_stack_use_after_return=0:strict_string_checks=1:'
                    'hard_rss_limit_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=98:report_signal_unsafe=0:'
                    'hard_rss_limit_mb=4096',
}


def env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k in ('PATH', 'LANG', 'LC_ALL', 'TZ')}
    e.setdefault('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['LC_ALL'] = 'C.UTF-8'
    e['HOME'] = '/nonexistent'
    e.update(SAN_ENV)
    for k, v in (extra or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    return e


class Result:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def crashed(self):
        """A sanitizer report, a failed internal check or a signal."""
        return self.rc < 0 or self.rc in (98, 99) or self.rc > 127 or \
            b'ERROR: AddressSanitizer' in self.err or \
            b'runtime error:' in self.err or \
            b'WARNING: ThreadSanitizer' in self.err

    def crash_key(self):
        """Short stable description of the crash: kind + innermost frame in
        the code under test (function names without addresses or lines)."""
        return crash_key(self.err, self.rc)


def crash_key(err, rc=0):
    import re
    t = err.decode('latin-1')
    kind = 'signal%d' % -rc if rc < 0 else 'exit%d' % rc
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t)
    if m:
        kind = m.group(1)
    m = re.search(r'runtime error: ([^\n]*)', t)
    if m:
        kind = 'ub:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:80]
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', t)
    if m:
        kind = 'tsan:' + m.group(1).strip()
    m = re.search(r'Check failed: \S*?([\w.-]+):\d+: (.*)', t)
    if m:
        kind = 'check:%s:%s' % (m.group(1), m.group(2)[:60])
    fr = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/\S+?):\d+', t):
        if '/bant/' in m.group(2) or '/scripts/' in m.group(2):
            fr = m.group(1).split('(')[0] + '@' + os.path.basename(m.group(2))
            break
    return kind + ' ' + fr


MEMORY = 4 << 30
OUTPUT = 1 << 29


def _exchange(p, stdin, deadline):
    """As communicate(), but gives up on endless output. -> out, err, ended"""
    res = {p.stdout: [], p.stderr: []}
    size, pos = 0, 0
    with selectors.DefaultSelector() as sel:
        for f in res:
            os.set_blocking(f.fileno(), False)
            sel.register(f, selectors.EVENT_READ)
        if stdin:
            os.set_blocking(p.stdin.fileno(), False)
            sel.register(p.stdin, selectors.EVENT_WRITE)
        elif p.stdin:
            p.stdin.close()
        while sel.get_map():
            left = deadline - time.time()
            if left <= 0 or size > OUTPUT:
                break
            for key, _ in sel.select(min(left, 60)):
                f = key.fileobj
                try:
                    if f is p.stdin:
                        pos += os.write(f.fileno(), stdin[pos:pos + 65536])
                        if pos < len(stdin): continue
                    else:
                        data = os.read(f.fileno(), 1 << 20)
                        size += len(data)
                        if data:
                            res[f].append(data)
                            continue
                except BlockingIOError:
                    continue
                except BrokenPipeError:
                    pass
                sel.unregister(f)
                f.close()
        ended = not sel.get_map()
    if ended:
        try: p.wait(max(.1, deadline - time.time()))
        except subprocess.TimeoutExpired: ended = False
    if not ended:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    for f in (p.stdin, p.stdout, p.stderr):
        if f: f.close()
    return b''.join(res[p.stdout]), b''.join(res[p.stderr]), ended


def limit_memory(p, cmd):
    """The sanitizers watch that themselves."""
    if os.path.basename(os.fsdecode(cmd[0])).startswith('bant-plain'):
        try: resource.prlimit(p.pid, resource.RLIMIT_AS, (MEMORY, MEMORY))
        except (OSError, ProcessLookupError): pass


def run(cmd, cwd=None, stdin=None, extra_env=None, timeout=60):
    """Runs to completion. A timeout kills the whole process group."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra_env),
                         stdin=subprocess.PIPE if stdin is not None
                         else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    limit_memory(p, cmd)
    out, err, ended = _exchange(p, stdin, time.time() + timeout)
    return Result(p.returncode, out, err, not ended)


def run2(cmd, **kw):
    """As run(), but a timeout is re-run once before it is believed."""
    r = run(cmd, **kw)
    if r.timed_out:
        kw['timeout'] = kw.get('timeout', 60) * 3
        r = run(cmd, **kw)
    return r


def pack(records):
    """[[field-bytes, ...], ...] -> the framing the probes read."""
    out = []
    for fields in records:
        out.append(len(fields).to_bytes(4, 'little'))
        for f in fields:
            if isinstance(f, str):
                f = f.encode('latin-1')
            out.append(len(f).to_bytes(4, 'little') + f)
    return b''.join(out)


def probe_batch(binary, mode, records, cwd=None, timeout=120, extra_env=None):
    """Feeds records to a probe, that answers each with one JSON line.
    -> list with per record: the answer, or a dict {'crash': key, 'err': ..}
    or {'hang': True}. A crash takes only its own record down."""
    answers = []
    pos = 0
    while pos < len(records):
        r = run([binary, mode], cwd=cwd, stdin=pack(records[pos:]),
                timeout=timeout, extra_env=extra_env)
        lines = r.out.split(b'\n')
        complete = lines[:-1]
        for ln in complete:
            answers.append(json.loads(ln.decode('latin-1')))
            pos += 1
        if pos >= len(records):
            if r.crashed or r.timed_out or r.rc != 0:  # at exit
                answers[-1] = {'crash': r.crash_key(),
                               'err': r.err[-4000:].decode('latin-1')}
            break
        if r.timed_out:
            # Alone, with plenty of time: is it this very record ?
            r = run([binary, mode], cwd=cwd, stdin=pack(records[pos:pos + 1]),
                    timeout=timeout * 2, extra_env=extra_env)
            if r.timed_out:
                answers.append({'hang': True})
                pos += 1
            continue
        if r.rc == 0 and not r.crashed:
            raise RuntimeError('probe stopped early: %r' % r.err[-500:])
        answers.append({'crash': r.crash_key(), 'rc': r.rc,
                        'err': r.err[-4000:].decode('latin-1')})
        pos += 1
    return answers


class Scratch:
    """A scratch directory, removed at the end."""
    def __init__(self, prefix='vf-'):
        self.prefix = prefix

    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix=self.prefix))
        return self.path

    def __exit__(self, *a):
        # Neither deep trees nor missing permissions are in the way.
        assert os.path.basename(self.path).startswith(self.prefix)
        if os.getuid() != 0:
            subprocess.run(['chmod', '-R', 'u+rwX', '--', self.path],
                           stderr=subprocess.DEVNULL)
        subprocess.run(['rm', '-rf', '--', self.path],
                       stderr=subprocess.DEVNULL)


def write_tree(base, files):
    for name, content in files.items():
        p = os.path.join(os.fsencode(base), name.encode('latin-1'))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, str):
            content = content.encode('latin-1')
        with open(p, 'wb') as f:
            f.write(content)


def sig(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


class Out:
    """What one case (or batch of cases) reports back."""
    def __init__(self):
        self.evaluations = 0
        self.sigs = set()
        self.violations = []     # (key, message, replay-data)
        self.inconclusive = []
        self.counts = {}
        self.samples = []

    def bad(self, key, msg, data=None):
        if len(self.violations) < 50:
            self.violations.append((key, msg, data))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, o):
        self.evaluations += o.evaluations
        self.sigs |= o.sigs
        self.violations += o.violations
        self.inconclusive += o.inconclusive
        for k, v in o.counts.items():
            if k.startswith('max_'):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.count(k, v)
        if len(self.samples) < 6:
            self.samples += o.samples[:6 - len(self.samples)]


def _guard(args):
    fn, a = args
    try:
        return fn(*a)
    except (LookupError, ValueError, AttributeError, TypeError) as e:
        # Inputs are the same in each run: there is something in what was
        # observed that is not of the form it has to have (a column that is
        # called differently, text that is no number, ...).
        o = Out()
        o.bad('output of unexpected form: %s' % type(e).__name__,
              traceback.format_exc()[-900:], repr(args)[:2000])
        return o
    except Exception:
        o = Out()
        o.inconclusive.append('HARNESS ' + traceback.format_exc())
        return o


class Check:
    def __init__(self, prop, rule, min_evaluations=1, min_distinct=1,
                 assumptions=None):
        self.prop, self.rule = prop, rule
        self.min_evaluations, self.min_distinct = min_evaluations, min_distinct
        self.assumptions = assumptions or []
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.out = Out()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def seeds(self, n, salt=''):
        r = random.Random('%s/%s/%d' % (self.prop, salt, self.seed))
        return [r.getrandbits(60) for _ in range(n)]

    def pool(self, fn, argslist, workers=None):
        argslist = list(argslist)
        with multiprocessing.Pool(workers or os.cpu_count() or 4) as p:
            for o in p.imap_unordered(_guard, [(fn, a) for a in argslist]):
                self.out.merge(o)

    def known(self):
        res = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for ln in f:
                    ln = ln.strip()
                    if not ln or ln.startswith('#') or \
                       ln.startswith('fixed:'):
                        continue
                    e = json.loads(ln)
                    if e['property'] == self.prop:
                        res[e['key']] = e['what']
        return res

    def finish(self):
        o = self.out
        known = self.known()
        fresh, seen_known = [], {}
        for key, msg, data in o.violations:
            if key in known:
                seen_known[key] = known[key]
            else:
                fresh.append((key, msg, data))
        harness = [i for i in o.inconclusive if i.startswith('HARNESS')]
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': o.evaluations,
                'distinct_nontrivial': len(o.sigs),
                'rule': self.rule,
                'samples': o.samples[:6],
                'observed': o.counts,
                'inconclusive': len(o.inconclusive),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(fresh),
        }
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k, w in seen_known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %s '
              '(%.1fs)' % (self.prop, self.tier, self.seed, o.evaluations,
                           len(o.sigs), o.counts, time.time() - self.t0))
        if fresh:
            by_key = {}
            for key, msg, data in fresh:
                by_key.setdefault(key, []).append((msg, data))
            rdir = os.path.join(EVIDENCE, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for i, (key, l) in enumerate(sorted(by_key.items())[:10]):
                path = os.path.join(rdir, '%s-%d.json' % (self.prop, i))
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'key': key,
                               'seed': self.seed, 'tier': self.tier,
                               'count': len(l), 'message': l[0][0],
                               'case': l[0][1]}, f, indent=1, default=repr)
                print('%s: %s (%d times)' % (key, str(l[0][0])[:1500], len(l)))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        if harness:
            print('\n'.join(harness[:3]), file=sys.stderr)
            sys.exit(3)
        for i in o.inconclusive[:5]:
            print('inconclusive:', i[:300])
        if o.evaluations < self.min_evaluations or \
           len(o.sigs) < self.min_distinct:
            print('observed too little: %d/%d evaluations, %d/%d distinct' % (
                o.evaluations, self.min_evaluations, len(o.sigs),
                self.min_distinct), file=sys.stderr)
            sys.exit(4)
        if len(o.inconclusive) > max(3, o.evaluations // 20):
            print('too many inconclusive cases', file=sys.stderr)
            sys.exit(5)
        sys.exit(0)
