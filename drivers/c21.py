"""Optimisations over lattice invariant shears."""
from common import *
from gens import *
from c19 import allhnf
from structrans import BravaisLattice


def lattice(rng, dim):
    while True:
        w = rng.random()
        if w < .5:
            l, p, _ = bravais(rng, None, dim)
            E = np.array(must(lambda: BravaisLattice(l, p, dim=dim).base()), float)
        elif w < .7:
            l, p, _ = bravais(rng, None, dim)
            E = np.array(must(lambda: BravaisLattice(l, p, dim=dim).base()), float).dot(rng.choice(allhnf(rng.randint(1, 4), dim)))
        else:
            E = basis(rng, dim, .3)
            if np.linalg.det(E) < 0 and rng.random() < .8:
                E[:, 0] *= -1
            if rng.random() < .3:
                E = intbasis(rng, dim, 2).astype(float)
        k = rng.choice([0, 0, 1, 2, 4])
        E = E.dot(unimodular(rng, dim, k, False))
        q = isometries(E)
        if w < .5 or len(q) == 2 or all(np.abs(np.abs(x) - np.rint(np.abs(x))).max() < 1e-6 for x in q):
            return E


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:300 if big else 60]:
        yield {'kind': 'start of the model', 'dim': len(g['e1']), 'e1': g['e1'], 'e2': g['e2'], 'seed': rng.random()}
    for i in range(400 if big else 120):
        yield {'kind': '2D', 'dim': 2, 'seed': rng.random()}
    for i in range(200 if big else 24):
        yield {'kind': '3D', 'dim': 3, 'seed': rng.random()}


    for i in range(240 if big else 36):
        yield {'kind': 'default depth', 'dim': 2, 'deep': True, 'seed': rng.random()}
    for i in range(160 if big else 24):
        yield {'kind': 'many solutions', 'dim': 3, 'many': True, 'seed': rng.random()}


def many(r):
    """Two nearly equal lattices, with short axes as often as not: many shears of similar size."""
    w = r.random()
    a = [1., r.uniform(.9, 1.1), r.uniform(.9, 1.1)]
    if w < .4:
        a[r.randrange(3)] *= r.choice([.2, .3, .45])
    elif w < .5:
        a[r.randrange(3)] *= r.choice([2., 3.])
    elif w < .9:
        for x in r.sample(range(3), 2):
            a[x] *= r.uniform(.15, .4)
    E = np.diag(a)
    if r.random() < .8:
        E = E.dot(np.eye(3) + np.triu(np.array([[r.uniform(-.45, .45) for x in range(3)] for y in range(3)]), 1))
    F = np.diag([r.uniform(.95, 1.05) for x in range(3)]).dot(E)
    return E, F


def execute(c, ev):
    from structrans.marttrans.lat_cor.lat_opt import lat_opt, lat_opt_unpack
    r = random.Random(c['seed'])
    if 'many' in c:
        E1, E2 = many(r)
    elif 'deep' in c:
        # 2D: the square, hexagonal and rectangular lattices, whose solutions have many equivalents
        S = [np.eye(2), np.array([[1, .5], [0, 3 ** .5 / 2]]), np.diag([1, 1.3]), np.array([[1, .5], [0, 1.3]]), np.array([[1, .3], [0, 1.1]])]
        E1, E2 = r.choice(S), r.choice(S)
        if r.random() < .5:
            E1 = E1.dot(unimodular(r, 2, r.choice([0, 1, 2]), False))
    elif 'e1' in c:
        E1, E2 = np.array(c['e1'], float), np.array(c['e2'], float)
    else:
        E1, E2 = lattice(r, c['dim']), lattice(r, c['dim'])
        if r.random() < .7:
            # comparable volumes
            s = (abs(np.linalg.det(E1) / np.linalg.det(E2))) ** (1. / c['dim']) * r.uniform(.95, 1.05)
            E2 = E2 * s
        if np.linalg.det(E1) < 0 and r.random() < .5:
            E1 = -E1 if c['dim'] == 3 else E1[:, ::-1].copy()
    nsol = r.randint(4, 60) if 'many' in c else r.choice([3, 4, 7, 8, 9, 10, 14, 20, 25, 30]) if 'deep' in c else r.choice([1, 1, 2, 3]) if c['dim'] == 3 else r.choice([1, 2, 3, 5, 10])
    dist = r.choice(['Cauchy', 'Cauchy', 'Ericksen', 'strain'])
    kw = {}
    if nsol != 1 or r.random() < .5:
        kw['nsol'] = nsol
    if dist != 'Cauchy' or r.random() < .5:
        kw['dist'] = dist
    if 'many' in c:
        kw['maxiter'] = 3
    elif 'deep' not in c and r.random() < .2:
        kw['maxiter'] = r.choice([3, 4])
    F1, F2 = E1.copy(), E2.copy()
    if r.random() < .2:
        y = call(lambda: lat_opt_unpack((F1, F2, dict(kw, disp=0), 3))[1], limit=200)
    else:
        y = call(lat_opt, F1, F2, disp=0, limit=200, **kw)
    e = {'op': 'opt', 'e1': raw(E1), 'e2': raw(E2), 'nsol': nsol, 'dist': dist, 'l': [], 'd': []}
    if isexc(y):
        ev.append(dict(e, out=out(y)))
    else:
        ev.append(dict(e, l=raw([np.array(x) for x in y['lopt']]), d=raw(list(y['dopt'])), out=out([])))


if __name__ == '__main__':
    import c21
    main(c21)
