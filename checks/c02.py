"""C02: arena and its containers, against a model, under ASan+UBSan."""
import json
from common import *

FLAGS = [f for f in build.BASE] + build.VARIANTS['asan']


def job(binary, mode, seed, cases):
    o = Out()
    r = run2([binary, mode, str(seed), str(cases)], timeout=200)
    where = r.err.decode('latin-1').strip().split('\n')
    last = [w for w in where if w.startswith('case ')][-1:]
    if r.timed_out:
        o.bad('hang', 'does not terminate', {'case': last})
        return o
    if r.crashed or r.rc != 0:
        o.bad('crash ' + r.crash_key(), r.err[-3000:].decode('latin-1'),
              {'case': last})
        return o
    a = json.loads(r.out)
    o.evaluations = max(cases, len(a['histories']))
    o.sigs = {(mode, h) for h in a['histories']}
    for k in ('alloc', 'append', 'iter', 'index', 'verify'):
        o.count(k, a[k])
    o.sample('%s seed %d: %d allocations, %d appends, %d elements iterated' % (
        mode, seed, a['alloc'], a['append'], a['iter']))
    if a['violation']:
        o.bad(a['violation'].split('(')[0].strip(), a['violation'],
              {'mode': mode, 'seed': a['seed']})
    return o


def main():
    c = Check('C02', 'A history is a random sequence of raw and typed '
              'allocations, appends to 1-4 containers of 98 type/growth '
              'configurations and moves of the arena, with 14 block sizes; '
              'after it (and during it) every byte handed out is compared '
              'with a ledger, every container with a vector. Distinct: by '
              'sequence of operations and configurations.',
              min_evaluations=200, min_distinct=200)
    binary = built(build.standalone, os.path.join(
        build.VERIF, 'probe', 'arena.cc'), 'arena', FLAGS)
    per = c.n(60, 400)
    jobs = [(binary, 'history', s, per) for s in c.seeds(c.n(64, 600))]
    jobs += [(binary, 'stepwise', s, 1) for s in c.seeds(c.n(3, 16), 's')]
    jobs += [(binary, 'long', s, 1) for s in c.seeds(c.n(2, 8), 'l')]
    c.pool(job, jobs)
    c.finish()


main()
