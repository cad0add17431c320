"""Directions and planes through real correspondences."""
from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for i in range(0, min(len(gens), 800 if not big else 20000), 20):
        yield {'kind': '2D pairs of the model', 'gen': gens[i:i + 20], 'seed': rng.random()}
    for rep in range(100 if not big else 2000):
        d = rng.choice([2, 3, 3, 3, 4])
        k = rng.randrange(4)
        L = [intbasis, lambda r, n: np.array(unimodular(r, n, 4)), basis, lambda r, n: np.array(intbasis(r, n, 2)) / 2.][k](rng, d)
        yield {'kind': '%dD' % d, 'L': np.array(L).tolist(), 'seed': rng.random()}


def execute(c, ev):
    from structrans.marttrans import direc_trans, plane_trans
    r = random.Random(c['seed'])

    def form(X):
        w = r.random()
        return X if w < .4 else np.array(X) if w < .8 else tuple(tuple(x) if isinstance(x, list) else x for x in X)

    def one(L, D, P, single):
        L = np.array(L)
        L0 = L.copy()
        y = call(direc_trans, L if r.random() < .8 else L.tolist(), form(D))
        z = call(plane_trans, L, form(P))
        m = 1 if single else len(D)
        ev.append({'op': 'direction', 'l': raw(L0), 'single': single, 'x': raw(D), 'out': out(y if isexc(y) else np.array(y))})
        ev.append({'op': 'plane', 'l': raw(L0), 'single': single, 'x': raw(P), 'out': out(z if isexc(z) else np.array(z))})
        ev.append({'op': 'incidence', 'd': raw(D), 'p': raw(P), 'nd': out(y if isexc(y) else np.array(y)), 'm': m, 'single': single, 'out': out(z if isexc(z) else np.array(z))})
        ev.append({'op': 'correspondence kept', 'l': raw(L0), 'out': out(L)})
    if 'gen' in c:
        for g in c['gen']:
            one(g['l'], g['d'], g['p'], True)
        return
    L = np.array(c['L'])
    d = len(L)

    def vec():
        return [r.randint(-4, 4) for _ in range(d)] if r.random() < .7 else [q(r.uniform(-3, 3), 4) for _ in range(d)]
    for n in (0, 0, 1, 2, d, 5, 11):
        # a plane through the direction half of the time
        D = [vec() for _ in range(max(n, 1))]
        P = [vec() for _ in range(max(n, 1))]
        for i in range(len(D)):
            if d == 3 and r.random() < .5:
                P[i] = [int(x) if x == int(x) else float(x) for x in np.cross(D[i], P[i])]
        one(L, D[0] if n == 0 else D, P[0] if n == 0 else P, n == 0)


if __name__ == '__main__':
    import c13
    main(c13)
