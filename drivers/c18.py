"""The fields of the solutions of both searches."""
from common import *
from gens import *
from c17 import pair, bases, radius
from structrans import BravaisLattice


CENTRED = {2: 4, 3: 2, 7: 2, 9: 2, 10: 4, 11: 2, 13: 2}


def near(rng, a, m, spread=.12):
    """lattices of the given types with cells that are nearly cubic and primitive cells of nearly the same volume"""
    def par(t, s):
        ln = lambda: q(s * (1 + rng.uniform(-spread, spread)), 8)
        an = lambda: q(90 + rng.choice([-1, 1]) * rng.uniform(3, 9), 4)
        n = PLEN[3][t - 1]
        if t == 5:
            return [ln(), q(rng.choice([60, 90]) + rng.choice([-1, 1]) * rng.uniform(3, 6), 4)]
        return [ln() for _ in range(min(n, 3))] + [an() for _ in range(n - 3)]
    s = lambda t: 2. * CENTRED.get(t, 1) ** (1 / 3.)
    return {'a': [a, par(a, s(a))], 'm': [m, par(m, s(m) * rng.choice([1., 1.02]))], 'dim': 3}


DEGENERATE = [
    ('direct', 3, 2, [3.29], [2.3729089363058162, 3.3558, 2.3729089363058162, 135., 60., 90.]),
    ('hnf', 3, 1, [3.38], [3.4476, 3.4476, 4.875642677637482, 135., 90., 90.]),
    ('direct', 1, 2, [4.71], [3.330472939, 3.330472939, 3.330472939, 60.0, 60.0, 60.0]),
    ('direct', 1, 2, [2.56], [1.81019336, 1.81019336, 1.81019336, 60.0, 120.0, 120.0]),
    ('hnf', 1, 2, [3.54], [2.503158005, 2.503158005, 2.503158005, 60.0, 90.0, 60.0])]


def resetting(rng):
    """a cubic lattice, stretched along an axis or not, described as a triclinic one by another basis"""
    while True:
        t, a = rng.choice([1, 2, 3]), q(rng.uniform(2, 5), 4)
        L = np.array([[rng.choice([-1, 0, 1]) for _ in range(3)] for _ in range(3)])
        if round(np.linalg.det(L)) != 1:
            continue
        s = rng.choice([np.eye(3), np.diag([1., 1., rng.choice([.95, 1.05])])]) * rng.choice([1, 1.02])
        B = s.dot(np.array(must(lambda: BravaisLattice(t, [a]).base()), float)).dot(L)
        G = B.T.dot(B)
        n = np.sqrt(np.diag(G))
        return {'a': [t, [a]], 'm': [14, [float(round(x, 9)) for x in n] + [float(round(np.degrees(np.arccos(G[i, j] / n[i] / n[j])), 9)) for i, j in ((1, 2), (0, 2), (0, 1))]]}


def plan(tier, rng, gens):
    big = tier == 'thorough'
    # both lattices centred, and differently
    both = [(a, m) for a in CENTRED for m in CENTRED if a != m]
    rng.shuffle(both)
    same = [x for x in both if CENTRED[x[0]] == CENTRED[x[1]]]
    for a, m in (both * 4 if big else same):
        yield dict(near(rng, a, m), kind='3D hnf centred', how='hnf', nsol=rng.choice([1, 1, 2]), dist='Cauchy', vol=.15)
    for i in range(200 if big else 12):
        yield dict(near(rng, rng.randint(1, 14), rng.randint(1, 14)), kind='3D hnf types', how='hnf', nsol=1, dist=rng.choice(['Cauchy', 'Ericksen', 'strain']), vol=.15)
    k = 0
    for i in range(20000):
        c = near(rng, *rng.choice(same))
        try:
            r = radius(*(bases(c) + (1,)))
        except Setup:
            r = 0
        if r < 2.1:
            k += 1
            yield dict(c, kind='3D direct centred', how='direct', nsol=1, dist='Cauchy', vol=.1)
        if k >= (80 if big else 4):
            break
    # equal principal stretches about an axis of general direction: the decomposition of F^T F has no unique axes
    for how, nsol, t, a, p in DEGENERATE:
        yield {'kind': '3D equal stretches', 'how': how, 'nsol': nsol, 'a': [t, a], 'm': [14, p], 'dim': 3, 'dist': 'Cauchy', 'vol': .1}
    for i in range(100 if big else 8):
        yield dict(resetting(rng), kind='3D resetting', dim=3, how='hnf', nsol=1, dist=rng.choice(['Cauchy', 'Ericksen', 'strain']), vol=.15)
    rng.shuffle(gens)
    for g in gens[:400 if big else 60]:
        yield dict(g, kind='pair of the model', how=rng.choice(['hnf', 'direct']), dist=rng.choice(['Cauchy', 'Ericksen', 'strain']), vol=rng.choice([.1, .3]))
    for i in range(400 if big else 80):
        how = rng.choice(['hnf', 'hnf', 'direct'])
        nsol = rng.choice([1, 2, 3, 5])
        yield dict(pair(rng, 2, nsol, 6), kind='2D ' + how, how=how, nsol=nsol, dist=rng.choice(['Cauchy', 'Ericksen', 'strain']), vol=rng.choice([.1, .1, .3]))
    for i in range(64 if big else 12):
        how = 'hnf' if i % 2 else 'direct'
        nsol = rng.choice([1, 2, 3])
        yield dict(pair(rng, 3, nsol, 2.4 if not big else 2.9), kind='3D ' + how, how=how, nsol=nsol, dist=rng.choice(['Cauchy', 'Cauchy', 'Ericksen', 'strain']), vol=.1)


def execute(c, ev):
    from structrans.marttrans.lat_cor import lat_cor_direct, lat_cor_hnf
    import structrans.marttrans.lat_cor as lc
    A, M = bases(c)
    K1, K2 = [np.array(must(lambda: BravaisLattice(x[0], x[1], dim=c['dim']).conventional_base()), float) for x in (c['a'], c['m'])]
    f = lat_cor_hnf if c['how'] == 'hnf' else lat_cor_direct
    kw = {'dim': c['dim']} if c['dim'] == 2 else {}
    dist = c['dist'] if c['how'] == 'hnf' else 'Cauchy'
    if c['how'] == 'hnf':
        kw['vol_th'] = c['vol']
        if dist != 'Cauchy':
            kw['dist'] = dist
    y = call(f, c['a'][0], c['a'][1], c['m'][0], c['m'][1], disp=0, nsol=c['nsol'], limit=400, **kw)
    if isexc(y):
        ev.append({'op': 'search', 'out': out(y), 'sols': [], 'args': [c['a'], c['m'], c['how']]})
        return
    ev.append({'op': 'search', 'out': out([]), 'sols': [0] * len(y), 'args': [c['a'], c['m'], c['how']]})
    ss = [{k: out(s.get(k)) for k in ('l', 'h', 'd', 'cor', 'u', 'lams')} for s in y]
    ev.append({'op': 'fields', 'how': c['how'], 'dist': dist, 'e1': raw(A), 'e2': raw(M), 'k1': raw(K1), 'k2': raw(K2), 'sols': ss})


if __name__ == '__main__':
    import c18
    main(c18)
