from common import *


def impls():
    from structrans.crystallography import hnf, sublattice
    return {'hnf': hnf, 'sublattice': sublattice}


def plan(tier, rng, gens):
    big = tier == 'thorough'
    top = {1: 60, 2: 40, 3: 14, 4: 6, 5: 4} if not big else {1: 200, 2: 120, 3: 36, 4: 12, 5: 8}
    for m in ('hnf', 'sublattice'):
        for N in top:
            for n in range(1, top[N] + 1):
                yield {'kind': 'det', 'm': m, 'N': N, 'n': n}
        for n in (-1, -2, -6, -12, -100):
            for N in (1, 2, 3):
                yield {'kind': 'det', 'm': m, 'N': N, 'n': n}
        yield {'kind': 'default dimension', 'm': m, 'N': None, 'n': 4}
        for i in range(60 if not big else 300):
            N = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
            hi = {1: 50, 2: 30, 3: 8, 4: 3, 5: 2}[N]
            yield {'kind': 'diag', 'm': m, 'diag': [rng.randint(1, hi) for _ in range(N)], 'as': rng.choice(['list', 'arr', 'tuple'])}
    for a in range(1, 500 if not big else 3000, 20):
        yield {'kind': 'divisors', 'ns': list(range(a, a + 20))}


def execute(c, ev):
    if c['kind'] == 'divisors':
        from structrans.util import divisors
        for n in c['ns']:
            r = call(lambda: list(divisors(n)))
            ev.append({'op': 'divisors', 'n': n, 'out': out(r)})
        return
    m = impls()[c['m']]
    if c['kind'] == 'diag':
        d = {'list': list, 'arr': np.array, 'tuple': tuple}[c['as']](c['diag'])
        ev.append({'op': 'hnf_from_diag', 'm': c['m'], 'diag': c['diag'], 'out': out(call(m.hnf_from_diag, d))})
    elif c['N'] is None:
        ev.append({'op': 'hnf_from_det', 'm': c['m'], 'n': c['n'], 'dim': 3, 'out': out(call(m.hnf_from_det, c['n']))})
    else:
        ev.append({'op': 'hnf_from_det', 'm': c['m'], 'n': c['n'], 'dim': c['N'], 'out': out(call(m.hnf_from_det, c['n'], N=c['N']))})


if __name__ == '__main__':
    import c01
    main(c01)
