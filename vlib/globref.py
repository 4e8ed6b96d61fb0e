"""Reference for what glob() selects, working on path elements."""
import re
from functools import lru_cache


def elem_match(p, e):
    return re.fullmatch('.*'.join(map(re.escape, p.split('*'))), e,
                        re.S) is not None


def matches(pat, path):
    """Whole path, element by element."""
    P, E = tuple(pat.split('/')), tuple(path.split('/'))

    @lru_cache(None)
    def m(i, j):
        if i == len(P): return j == len(E)
        if P[i] == '**':
            if i == len(P) - 1: return j < len(E)  # files, not the directory
            return m(i + 1, j) or (j < len(E) and m(i, j + 1))
        return j < len(E) and elem_match(P[i], E[j]) and m(i + 1, j + 1)
    return m(0, 0)


def selected(inc, exc, path):
    return any(matches(p, path) for p in inc) and \
        not any(matches(p, path) for p in exc)
