"""Distances of correspondences, one by one and batched."""
from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for i in range(0, min(len(gens), 20000 if big else 1000), 25):
        yield {'kind': '2D of the model', 'gen': gens[i:i + 25], 'seed': rng.random()}
    for rep in range(240 if not big else 2400):
        yield {'kind': 'one by one', 'd': rng.choice([2, 3, 3]), 'seed': rng.random()}
    for rep in range(120 if not big else 1200):
        yield {'kind': 'symmetry', 'sym': 1, 'd': rng.choice([2, 3]), 'seed': rng.random()}
    for d in (2, 3):
        for n in [0, 1, 2, 3, 4, 9, 27, 50, 98, 99, 100, 101, 102, 137, 200, 256, 300, 512, 777, 1000, 1024, 1500] + [rng.randint(1, 600) for _ in range(8 if not big else 200)]:
            yield {'kind': 'batched %s' % ('< 100' if n < 100 else '>= 100'), 'd': d, 'n': n, 'seed': rng.random()}


def Lmat(r, d):
    w = r.random()
    if w < .4:
        return np.array(unimodular(r, d, 3))
    return intbasis(r, d, 2)


def execute(c, ev):
    from structrans.marttrans.lat_cor.dist import Eric_dist, strain_dist, Cauchy_dist, Cauchy_dist_vec
    from structrans.crystallography import BravaisLattice
    r = random.Random(c['seed'])

    def one(L, E1, E2, flat=True):
        E2i = np.linalg.inv(E2)
        x = np.array(L).reshape(-1) if flat or r.random() < .7 else np.array(L)
        a = {'l': raw(np.array(L)), 'e1': raw(E1), 'e2i': raw(E2i), 'e2': raw(E2)}
        if r.random() < .3:
            x = x.astype(float)
        ev.append(dict(a, op='Cauchy', out=out(call(Cauchy_dist, x.copy(), E1.copy(), E2i.copy()))))
        ev.append(dict(a, op='Ericksen', out=out(call(Eric_dist, x.copy(), E1.copy(), E2.copy()))))
        if abs(np.linalg.det(L)) > .5:
            ev.append(dict(a, op='strain', out=out(call(strain_dist, x.copy(), E1.copy(), E2i.copy()))))

    def lat(d):
        B = must(BravaisLattice, *(special if r.random() < .3 else bravais)(r, None if r.random() < .999 else 1, d)) if d and r.random() < .6 else None
        return (must(B.base), B) if B is not None else (basis(r, d), None)
    if 'gen' in c:
        for g in c['gen']:
            one(g['l'], np.array(g['e1'], dtype=float), np.array(g['e2'], dtype=float))
        return
    d = c['d']
    if 'n' in c:
        E1, E2 = basis(r, d), basis(r, d)
        E2i = np.linalg.inv(E2)
        def Lm():
            L = np.array(Lmat(r, d))
            if r.random() < .05:        # a long shear on top
                T = np.eye(d, dtype=int)
                i, j = r.sample(range(d), 2)
                T[i, j] = r.choice([1, -1]) * r.choice([100, 128, 130, 200, 300, 1000, 32768, 40000])
                L = L.dot(T)
            return L
        xs = np.array([Lm().reshape(-1) if r.random() < .9 else np.zeros(d * d, dtype=int) for _ in range(c['n'])]).reshape(c['n'], d * d)
        y = call(Cauchy_dist_vec, xs.copy(), E1, E2i)
        z = call(lambda: np.array([Cauchy_dist(x, E1, E2i) for x in xs]))
        ev.append({'op': 'batch', 'n': c['n'], 'one': out(z), 'xs': raw(xs.reshape(-1, d, d)), 'e1': raw(E1), 'e2i': raw(E2i), 'out': out(y)})
        return
    if c.get('sym'):
        lid = r.randint(1, len(PLEN[d]))
        A, B = [must(BravaisLattice, *special(r, r.randint(1, len(PLEN[d])), d)) for _ in range(2)]
        E1, E2 = must(A.base), must(B.base)
        E2i = np.linalg.inv(E2)
        L = Lmat(r, d)
        G1, G2 = must(must(A.lattice_group).matrices), must(must(B.lattice_group).matrices)
        a = {'e1': raw(E1), 'e2': raw(E2), 'e2i': raw(E2i), 'l': raw(L)}
        d0 = [call(f, L.reshape(-1), E1, X) for f, X in ((Cauchy_dist, E2i), (Eric_dist, E2), (strain_dist, E2i))]
        for _ in range(5):
            M1, M2 = [np.array(np.rint(r.choice(G)), dtype=int) for G in (G1, G2)]
            l = M1.dot(L).dot(M2).reshape(-1)
            for (f, X), y, nm in zip(((Cauchy_dist, E2i), (Eric_dist, E2), (strain_dist, E2i)), d0, ('Cauchy', 'Ericksen', 'strain')):
                l1 = l if nm != 'Ericksen' else M1.dot(L).reshape(-1)
                ev.append({'op': 'invariant', 'name': nm, 'm1': raw(M1), 'm2': raw(M2), 'd0': out(y), 'e1': a['e1'], 'e2': a['e2'], 'out': out(call(f, l1, E1, X))})
        return
    for _ in range(3):
        E1, E2 = lat(d)[0], lat(d)[0]
        one(Lmat(r, d), E1, E2)
        # an isometry, up to rounding
        L = Lmat(r, d)
        one(L, E1, rotmat(r, d).dot(E1).dot(L))
        # a scaled isometry: C is a multiple of the identity
        one(L, E1, q(r.uniform(.7, 1.4), 5) * E1.dot(L))


if __name__ == '__main__':
    import c15
    main(c15)
