"""Builds /repo's current working tree (all of bant, plus scripts/) with
sanitizers, and the probes in /verif/probe on top.  Objects are cached under
/verif/build by a hash of everything that goes into them, never by time."""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SHIM = os.path.join(VERIF, 'shim')
CXX = 'g++'

BASE = ['-std=c++23', '-fno-exceptions', '-fno-rtti', '-g1', '-w',
        '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
        '-I' + SHIM, '-I' + REPO]
VARIANTS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
}
LIBS = ['-labsl_time', '-labsl_time_zone', '-labsl_civil_time',
        '-labsl_hash', '-labsl_city', '-labsl_low_level_hash',
        '-labsl_raw_hash_set', '-labsl_hashtablez_sampler',
        '-labsl_exponential_biased', '-labsl_str_format_internal',
        '-labsl_strings', '-labsl_strings_internal', '-labsl_int128',
        '-labsl_synchronization', '-labsl_graphcycles_internal',
        '-labsl_stacktrace', '-labsl_symbolize', '-labsl_debugging_internal',
        '-labsl_demangle_internal', '-labsl_malloc_internal',
        '-labsl_throw_delegate', '-labsl_bad_optional_access',
        '-labsl_bad_variant_access', '-labsl_base', '-labsl_spinlock_wait',
        '-labsl_raw_logging_internal', '-labsl_log_severity',
        '-l:libre2.so.10', '-lpthread']


class BuildError(Exception):
    pass


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'bant')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.cc') and not f.endswith('_test.cc') and \
               not f.endswith('_testutil.cc'):
                out.append(os.path.join(root, f))
    return out


def _key(src, flags, deps):
    """Hash of everything that goes into an object, None if a file is gone."""
    h = hashlib.sha256(repr((CXX, flags, src)).encode())
    for d in deps:
        try:
            h.update(d.encode() + b'\0' + _read(d) + b'\0')
        except OSError:
            return None
    return h.hexdigest()[:32]


def _parse_deps(depfile):
    t = _read(depfile).decode().replace('\\\n', ' ')
    deps = t.split(':', 1)[1].split()
    return sorted({os.path.normpath(d) for d in deps
                   if not d.startswith('/usr/')})


def _compile(src, flags):
    """Objects are found by the content of the source and of every header
    that a former compilation of it included (a list of such header lists is
    remembered per source)."""
    mf = os.path.join(BUILD, 'obj', hashlib.sha256(
        repr((CXX, flags, src)).encode()).hexdigest()[:32] + '.deps')
    depsets = []
    if os.path.exists(mf):
        depsets = [ln.split() for ln in _read(mf).decode().splitlines()]
    for deps in depsets:
        k = _key(src, flags, deps)
        if k and os.path.exists(os.path.join(BUILD, 'obj', k + '.o')):
            return os.path.join(BUILD, 'obj', k + '.o')
    tmp = '%s.%d.%d.tmp' % (mf, os.getpid(), threading.get_ident())
    r = subprocess.run([CXX] + flags + ['-MMD', '-MF', tmp + '.d', '-c', src,
                                        '-o', tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('compile %s:\n%s' % (src, r.stderr[:4000]))
    deps = _parse_deps(tmp + '.d')
    os.unlink(tmp + '.d')
    obj = os.path.join(BUILD, 'obj', _key(src, flags, deps) + '.o')
    os.rename(tmp, obj)
    if deps not in depsets:
        with open(mf, 'a') as f:
            f.write(' '.join(deps) + '\n')
    return obj


def _link(objs, flags, libs, out):
    key = hashlib.sha256(repr((objs, flags, libs)).encode()).hexdigest()[:32]
    path = os.path.join(BUILD, 'bin', '%s-%s' % (out, key))
    if not os.path.exists(path):
        tmp = '%s.%d.tmp' % (path, os.getpid())
        r = subprocess.run([CXX] + flags + objs + libs + ['-o', tmp],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('link %s:\n%s' % (out, r.stderr[:4000]))
        os.rename(tmp, path)
    return path


def _prep():
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)


def _compile_all(jobs):
    _prep()
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(_compile, *j) for j in jobs]
        return [f.result() for f in futs]


def bant_objs(variant):
    """-> (objects without main, object with main)."""
    flags = BASE + VARIANTS[variant]
    srcs = repo_sources() + [os.path.join(SHIM, 're2_shim.cc')]
    objs = _compile_all([(s, flags) for s in srcs])
    main = [o for s, o in zip(srcs, objs) if s.endswith('/bant/bant.cc')]
    rest = [o for s, o in zip(srcs, objs) if not s.endswith('/bant/bant.cc')]
    return rest, main


def bant(variant='asan'):
    rest, main = bant_objs(variant)
    return _link(main + rest, VARIANTS[variant], LIBS, 'bant-' + variant)


def probe(name, variant='asan'):
    """/verif/probe/<name>.cc linked against all of bant."""
    flags = BASE + VARIANTS[variant]
    rest, _ = bant_objs(variant)
    src = os.path.join(VERIF, 'probe', name + '.cc')
    obj = _compile_all([(src, flags)])
    return _link(obj + rest, VARIANTS[variant], LIBS,
                 '%s-%s' % (name, variant))


def standalone(src, out, flags, libs=('-lpthread',)):
    """A single source file that does not need the rest of bant."""
    obj = _compile_all([(src, list(flags))])
    san = [f for f in flags if f.startswith('-fsanitize')]
    return _link(obj, san, list(libs), out)


def preload(name):
    """/verif/stubs/<name>.cc as library for LD_PRELOAD."""
    src = os.path.join(VERIF, 'stubs', name + '.cc')
    obj = _compile_all([(src, ['-std=c++17', '-O1', '-fPIC', '-w'])])
    return _link(obj, ['-shared'], ['-ldl', '-lpthread'], name + '.so')


def repo_test(rel, variant='asan'):
    """One of /repo's own gtest files (used to validate the shims)."""
    flags = [f for f in BASE if f != '-fno-rtti'] + VARIANTS[variant]
    flags = BASE + VARIANTS[variant]
    rest, _ = bant_objs(variant)
    obj = _compile_all([(os.path.join(REPO, rel), flags)])
    return _link(obj + rest, VARIANTS[variant],
                 ['-lgtest', '-lgmock', '-lgtest_main'] + LIBS,
                 os.path.basename(rel)[:-3])


if __name__ == '__main__':
    for v in sys.argv[1:] or ['asan']:
        print(bant(v))
