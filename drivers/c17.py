"""Direct searches, several random starts and slice sizes per pair of lattices."""
from common import *
from gens import *
import itertools
from structrans import BravaisLattice


def bases(c):
    A = must(lambda: BravaisLattice(c['a'][0], c['a'][1], dim=c['dim']).base())
    M = must(lambda: BravaisLattice(c['m'][0], c['m'][1], dim=c['dim']).base())
    return np.array(A, float), np.array(M, float)


_BOX = {}


def radius(EA, EM, nsol):
    """estimate of the radius the search has to cover"""
    n = len(EA)
    if n not in _BOX:
        _BOX[n] = np.array([x for x in itertools.product((-1, 0, 1) if n == 3 else range(-4, 5), repeat=n * n)], float).reshape(-1, n, n)
        _BOX[n] = _BOX[n][np.abs(np.linalg.det(_BOX[n])) > .5]
    F = EA.dot(_BOX[n]).transpose(1, 0, 2).dot(np.linalg.inv(EM))
    C = np.matmul(F, F.transpose(0, 2, 1)) - np.eye(n)
    d = np.unique(np.round(np.sum(C * C, axis=(1, 2)), 6))
    d = d[min(nsol - 1, len(d) - 1)]
    k = np.linalg.svd(EM, compute_uv=False)[0] / np.linalg.svd(EA, compute_uv=False)[-1]
    return (3 + 2 * np.sqrt(3 * d) + d) ** .25 * k


def pair(rng, dim, nsol, rmax, rmin=0):
    """two Bravais lattices for which the search is affordable"""
    while True:
        f = special if rng.random() < .3 else bravais
        a = f(rng, rng.randint(1, len(PLEN[dim])), dim)
        m = f(rng, rng.randint(1, len(PLEN[dim])), dim)
        c = {'a': [a[0], a[1]], 'm': [m[0], m[1]], 'dim': dim}
        if rng.random() < .2:
            # the product is the parent, or nearly
            k = len(a[1]) if len(a[1]) < 4 and not (dim == 2 and len(a[1]) == 3) and not (dim == 3 and a[0] == 5) else dim
            k = 1 if dim == 3 and a[0] == 5 else k
            c['m'] = [a[0], [x * rng.choice([1, 1, 1.03125, 2 if dim == 2 else 1]) if i < k else x for i, x in enumerate(a[1])]]
        try:
            A, M = bases(c)
        except Setup:
            return c
        v = abs(np.linalg.det(M) / np.linalg.det(A))
        if .4 < v < 4 and rmin <= radius(A, M, nsol) <= rmax and plain(A, c['a'][0], dim) and plain(M, c['m'][0], dim):
            return c


def tight(EA, EM, nmax):
    """the number of solutions for which the last one needed lies closest to the radius of the search, that ratio and the radius"""
    n = len(EA)
    radius(EA, EM, 1)
    F = EA.dot(_BOX[n]).transpose(1, 0, 2).dot(np.linalg.inv(EM))
    C = np.matmul(F, F.transpose(0, 2, 1)) - np.eye(n)
    d = np.sum(C * C, axis=(1, 2))
    i = np.argsort(d)[:400]
    u, group = np.unique(np.round(d[i], 6), return_inverse=True)
    w = np.linalg.eigvalsh
    k = np.sum((np.sort(w(np.linalg.inv(EA.T.dot(EA)))) * np.sort(w(EM.T.dot(EM)))) ** 2)
    r = ((3 + 2 * np.sqrt(3 * u) + u) * k) ** .25
    norms = np.sqrt(np.sum(_BOX[n][i] ** 2, axis=(1, 2)))
    norms = np.array([norms[group == j].min() for j in range(min(nmax, len(u)))]) / r[:nmax]
    j = int(np.argmax(norms))
    return norms[j], j + 1, r[j]


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:200 if big else 40]:
        yield dict(g, kind='search of the model', runs=[[g['nsol'], g['slice'], rng.randrange(10 ** 6)]])
    for i in range(400 if big else 64):
        nsol = rng.choice([1, 1, 2, 3, 5])
        c = pair(rng, 2, nsol, 7)
        yield dict(c, kind='2D search', runs=[[nsol, rng.choice([1, 7, 100, 100, 3000]), rng.randrange(10 ** 6)] for _ in range(2)])
    best = []
    for i in range(4000 if big else 500):
        c = pair(rng, 2, 1, 7)
        try:
            x, nsol, r = tight(*(bases(c) + (9,)))
        except Setup:
            continue
        if r < 8.5:
            best.append((x, len(best), dict(c, kind='2D tight', runs=[[nsol + j, rng.choice([100, 1000]), rng.randrange(10 ** 6)] for j in range(3)])))
    best.sort(key=lambda b: (-b[0], b[1]))
    for b in best[:200 if big else 20]:
        yield b[2]
    for i in range(96 if big else 16):
        nsol = rng.choice([1, 1, 2, 3])
        c = pair(rng, 3, nsol, 3.9 if big else 2.9)
        yield dict(c, kind='3D search', runs=[[nsol, rng.choice([50, 100, 1000]), rng.randrange(10 ** 6)]])


def execute(c, ev):
    from structrans.marttrans.lat_cor.main_direct import lat_cor
    A, M = bases(c)
    for nsol, sl, seed in c['runs']:
        np.random.seed(seed)
        kw = {'dim': c['dim']} if c['dim'] == 2 or seed % 2 else {}
        if nsol != 1 or seed % 3:
            kw['nsol'] = nsol
        if sl != 100:
            kw['slice_sz'] = sl
        y = call(lat_cor, c['a'][0], c['a'][1], c['m'][0], c['m'][1], disp=0, limit=400, **kw)
        e = {'op': 'search', 'e1': raw(A), 'e2': raw(M), 'nsol': nsol, 'slice': sl, 'sols': [], 'args': [c['a'], c['m']]}
        if isexc(y):
            ev.append(dict(e, out=out(y)))
            continue
        e['sols'] = [{'l': raw(s['l']), 'd': raw(s['d'])} for s in y]
        ev.append(dict(e, out=out([])))


if __name__ == '__main__':
    import c17
    main(c17)
