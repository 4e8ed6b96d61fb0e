"""Reference for which path of a header is provided by which target."""
import os


def norm(d):
    d = os.path.normpath(d).lstrip('/')
    return '' if d == '.' else d


def inside(path, d):
    """path as seen from directory d, None if not in there"""
    if d == '': return path
    return path[len(d) + 1:] if path.startswith(d + '/') else None


def paths_of(pkg, header, include_prefix, strip, includes):
    """Everything #include can name that header with."""
    header = header.lstrip(':')
    pre = pkg + '/' if pkg else ''
    fqn = pre + header
    stripped = None
    if strip:
        if not strip.startswith('/'):
            stripped = inside(fqn, norm(pre + strip))
        if stripped is None: stripped = inside(fqn, norm(strip))
    if include_prefix:
        s = include_prefix.rstrip('/') + '/' + (stripped or header)
        while s.startswith('./'): s = s[2:]
        return {s.lstrip('/')}
    out = {stripped if stripped is not None else fqn}
    for d in includes:
        for x in (norm(pre + d), norm(d)):
            p = inside(fqn, x)
            if p is not None: out.add(p)
    return out


def unique(l):
    return list(dict.fromkeys(l))


def provided(ws, loaded):
    """path -> set of labels"""
    by = {t.label: t for t in ws.targets if t.pkg.ctx in loaded}
    alias = {}
    for t in by.values():
        if t.actual: alias.setdefault(t.actual, []).append(t.label)

    def with_aliases(l):
        out, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += alias.get(x, [])
        return out
    res = {}
    for t in by.values():
        a = t.attrs
        if t.rule in ('cc_library', 'grpc_cc_library'):
            for h in a.get('hdrs', []) + a.get('textual_hdrs', []) + \
                    a.get('public_hdrs', []):
                if h == 'string_view.h' and all(
                        h in a.get(x, []) for x in ('hdrs', 'textual_hdrs')) \
                        and t.pkg.path.endswith('absl/strings'):
                    continue    # only there for backward compatibility
                for p in paths_of(t.pkg.path, h, a.get('include_prefix', ''),
                                  a.get('strip_include_prefix', ''),
                                  a.get('includes', [])):
                    res.setdefault(p, set()).update(with_aliases(t.label))
        if hasattr(t, 'proto'):
            l, rule = t.proto
            mid = '.grpc' if rule == 'cc_grpc_library' else ''
            for s in l.attrs['srcs']:
                if s.endswith('.proto'):
                    for e in ('.pb.h', '.proto.h'):
                        f = l.pkg.dir + s.lstrip(':')[:-6] + mid + e
                        res.setdefault(f, set()).update(
                            with_aliases(t.label))
    return res


def common_elements(a, b):
    n = 0
    for x, y in zip(reversed(a.split('/')), reversed(b.split('/'))):
        if x != y: break
        n += 1
    return n


def lookup(index, path, least=2):
    """-> the entries of the index that can be meant, [] if none"""
    if path in index: return [path]
    best = max((common_elements(path, h) for h in index), default=0)
    if best < least: return []
    return [h for h in index if common_elements(path, h) == best]
