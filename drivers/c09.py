from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    for dim in (2, 3):
        for lid in range(1, len(PLEN[dim]) + 1):
            for rep in range(4 if not big else 60):
                yield {'kind': '%dD type %d' % (dim, lid), 'l': (special if rep % 4 == 3 else bravais)(rng, lid, dim), 'seed': rng.random()}


def execute(c, ev):
    from structrans.crystallography import BravaisLattice
    lid, p, d = c['l']
    r = random.Random(c['seed'])
    B = must(BravaisLattice, lid, p, d)
    E, K = raw(must(B.base)), raw(must(B.conventional_base))
    F = {'to_primitive': [B.to_primitive_Miller, B.toPrimitive], 'to_conventional': [B.to_conventional_Miller, B.toConventional]}
    back = {'to_primitive': 'to_conventional', 'to_conventional': 'to_primitive'}
    def vec():
        w = r.random()
        if w < .6:
            return [r.randint(-4, 4) for _ in range(d)]
        if w < .7:
            return [0] * d
        if w < .8:
            return [r.randint(-1000, 1000) for _ in range(d)]
        return [q(r.uniform(-3, 3), 4) for _ in range(d)]
    for op in ('to_primitive', 'to_conventional'):
        for n in (0, 0, 0, 1, 2, d, 5, 12):
            idx = vec() if n == 0 else [vec() for _ in range(n)]
            X = idx if r.random() < .4 else np.array(idx) if r.random() < .8 else tuple(idx)
            f = r.choice(F[op])
            y = call(f, X)
            ev.append({'op': op, 'e': E, 'k': K, 'idx': raw(idx), 'single': n == 0, 'out': out(y)})
            if not isexc(y):
                ev.append({'op': 'roundtrip', 'e': E, 'k': K, 'idx': raw(idx), 'single': n == 0, 'out': out(call(r.choice(F[back[op]]), y))})
        for X in ([1] * (d + 1), [1] * (d - 1), [[1] * (d + 1)] * 2, np.ones((2, 2, d)), 3, [[1] * (d - 1)], np.ones((d, d + 1)), [[[1] * d]], 2.5, np.float64(1)):
            for f in F[op]:
                ev.append({'op': 'wrong shape', 'what': repr(X)[:60], 'out': out(call(f, X))})


if __name__ == '__main__':
    import c09
    main(c09)
