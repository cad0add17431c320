"""Symmetry reduction of lists of Hermite normal forms, whole and in pieces."""
from common import *
from gens import *


def allhnf(n, dim):
    """all Hermite normal forms, in the convention of the library (entries 1-d..0 left of the diagonal)"""
    import itertools
    res = []
    for d in itertools.product(range(1, n + 1), repeat=dim):
        if int(np.prod(d)) != n:
            continue
        rows = [[list(f) + [d[i]] + [0] * (dim - 1 - i) for f in itertools.product(range(1 - d[i], 1), repeat=i)] for i in range(dim)]
        res += [[list(r) for r in m] for m in itertools.product(*rows)]
    return res


def closure(ms, cap=60):
    n = len(ms[0])
    S = {tuple(map(tuple, np.eye(n, dtype=int).tolist()))}
    S |= {tuple(map(tuple, m)) for m in ms}
    while True:
        T = S | {tuple(map(tuple, np.array(a).dot(b).tolist())) for a in S for b in S}
        if len(T) == len(S):
            return [[list(r) for r in m] for m in sorted(S)]
        if len(T) > cap:
            return None
        S = T


def group(rng, dim):
    """a finite group of unimodular matrices: symmetries of a lattice in some basis"""
    from structrans import BravaisLattice
    U = np.array(unimodular(rng, dim, rng.randint(0, 3), False))
    Ui = np.rint(np.linalg.inv(U)).astype(int)
    l, p, _ = bravais(rng, None, dim)
    E = np.array(must(lambda: BravaisLattice(l, p, dim=dim).base()), float)
    Ei = np.linalg.inv(E)
    ms = [np.rint(Ei.dot(q).dot(E)).astype(int) for q in isometries(E)]
    w = rng.random()
    if w < .7:
        ms = [m for m in ms if round(np.linalg.det(m)) == 1]
    elif w < .85:
        ms = [np.array(m) for m in closure([rng.choice(ms).tolist()])]
    return [Ui.dot(m).dot(U).tolist() for m in ms]


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:3000 if big else 400]:
        a, b = list(g['a']), list(g['b'])
        rng.shuffle(a)
        rng.shuffle(b)
        yield {'kind': 'partition of the model', 'hnfs': a + b, 'cuts': [len(a)], 'lg': g['lg']}
    for i in range(400 if big else 120):
        dim = rng.choice([2, 3, 3])
        ns = [rng.randint(1, 12 if dim == 2 else 6) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .1:
            ns = [rng.choice([16, 24, 36]) if dim == 2 else 8]
        hs = [h for n in sorted(set(ns)) for h in allhnf(n, dim)]
        w = rng.random()
        if w < .5:
            rng.shuffle(hs)
        if .4 < w < .7:
            hs = hs[:rng.randint(1, len(hs))]
        if rng.random() < .1:
            hs = hs + hs[:2]
        cuts = sorted(rng.sample(range(len(hs) + 1), min(len(hs), rng.randint(1, 4))))
        yield {'kind': '%dD' % dim, 'hnfs': hs, 'cuts': cuts, 'seed': rng.random(), 'dim': dim}


def execute(c, ev):
    from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
    r = random.Random(c.get('seed', 0))
    lg = c['lg'] if 'lg' in c else group(r, c['dim'])
    H = [np.array(h) for h in c['hnfs']]
    L = np.array(lg)
    lp = [[lambda *a: None]] if r.random() < .5 else [[]]

    def red(hs):
        return reduce_hnfs([hs, L] + lp[0])

    def log(how, given, y):
        ok = all(np.array_equal(a, b) for a, b in zip(given, c['hnfs'])) and len(given) == len(c['hnfs']) and np.array_equal(L, lg)
        if isexc(y):
            ev.append({'op': 'reduce', 'how': how, 'hnfs': c['hnfs'], 'lg': lg, 'kept': [], 'same': ok, 'out': out(y)})
        else:
            ev.append({'op': 'reduce', 'how': how, 'hnfs': c['hnfs'], 'lg': lg, 'kept': raw([np.array(h) for h in y]), 'same': ok, 'out': out([])})
        return None if isexc(y) else y
    y = log('whole', H, call(red, H))
    cuts = [0] + c['cuts'] + [len(H)]
    parts = [H[a:b] for a, b in zip(cuts, cuts[1:])]

    def pieces():
        z = []
        for q in parts:
            z += red(q)
        return red(z)
    log('pieces', H, call(pieces))
    if y is not None:
        log('again', H, call(red, y))


if __name__ == '__main__':
    import c19
    main(c19)
