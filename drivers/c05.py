from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    by = {}
    for g in gens:
        by.setdefault(json.dumps(g['e']), []).append(g['m'])
    for a in sorted(by):
        yield {'kind': 'spec pairs', 'e': json.loads(a), 'ms': by[a]}
    for dim in (2, 3):
        for lid in range(1, len(PLEN[dim]) + 1):
            for rep in range(24 if not big else 120):
                yield {'kind': 'complete', 'lid': lid, 'dim': dim, 'seed': rng.random(), 'first': rng.randrange(4)}
    for i in range(600 if not big else 5000):
        yield {'kind': 'membership', 'n': rng.choice([1, 2, 2, 3, 3, 3, 4, 5]), 'seed': rng.random()}
    for i in range(40 if not big else 400):
        yield {'kind': 'long shears', 'n': rng.choice([2, 2, 3]), 'seed': rng.random()}
    for i in range(200 if not big else 1000):
        yield {'kind': 'bravais membership', 'dim': rng.choice([2, 3]), 'seed': rng.random()}


NAMES4 = ['Laue_group', 'point_group', 'special_lattice_group', 'lattice_group']


def test(ev, L, E, op, Q):
    ev.append({'op': op, 'e': raw(E), 'q': raw(Q), 'out': out(call(getattr(L, op), Q))})


def sperm(r, n):
    p = r.sample(range(n), n)
    return np.array([[r.choice([-1, 1]) if p[i] == j else 0 for j in range(n)] for i in range(n)])


def execute(c, ev):
    from structrans.crystallography import Lattice, BravaisLattice
    k = c['kind']
    if k == 'spec pairs':
        L = must(Lattice, c['e'])
        E = np.array(c['e'], dtype=float)
        for m in c['ms']:
            test(ev, L, c['e'], 'inlatticegroup', np.array(m))
            if abs(np.linalg.det(m)) > .5:
                test(ev, L, c['e'], 'inpointgroup', E.dot(m).dot(np.linalg.inv(E)))
                Q = E.dot(m).dot(np.linalg.inv(E))
                if np.abs(Q - np.rint(Q)).max() < 1e-9:
                    test(ev, L, c['e'], 'inpointgroup', np.rint(Q).astype(int))
        return
    r = random.Random(c['seed'])
    if k == 'complete':
        lid, p, d = bravais(r, c['lid'], c['dim'])
        B = must(BravaisLattice, lid, p, d)
        g = {}
        for i in [c['first']] + [j for j in range(4) if j != c['first']]:
            g[i] = np.array(must(must(getattr(B, NAMES4[i])).matrices))
        ev.append({'op': 'complete', 'lat': out(g[3]), 'id': lid, 'par': raw(p), 'e': raw(must(B.base)), 'laue': out(g[0]), 'point': out(g[1]), 'spec': out(g[2])})
        return
    if k == 'membership':
        n = c['n']
        # the lattice is a rotated, possibly stretched hypercubic lattice in some basis
        R = rotmat(r, n) if r.random() < .6 else np.eye(n)
        D = np.eye(n)
        if r.random() < .5:
            D[0, 0] = r.choice([2., 1.5, 1.25, 1 + 2. ** -6, 1 + 2. ** -10, 32., 256., 1024.])
        U = np.array(unimodular(r, n, 3))
        E = R.dot(D).dot(U) * r.choice([1, 3., .5])
        if D[0, 0] > 20 and n > 1:     # elongated cell: its short shears are nearly rotations
            T = np.eye(n, dtype=int)
            i, j = r.sample(range(n), 2)
            i, j = (j, i) if i == 0 else (i, j)
            T[i, 0] = r.choice([1, -1])
            U = np.eye(n, dtype=int)
            E = R.dot(D) * r.choice([1, 3., .5])
        if r.random() < .2 and D[0, 0] < 20:
            E = intbasis(r, n, 2)
        L = must(Lattice, E)
        Ei = np.linalg.inv(E)
        cand = [np.eye(n), -np.eye(n)]
        for _ in range(3):
            cand.append(R.dot(sperm(r, n)).dot(R.T))        # orthogonal, symmetric or not when stretched
        cand.append(rotmat(r, n))                            # orthogonal, no symmetry
        V = T.tolist() if D[0, 0] > 20 and n > 1 else unimodular(r, n, 2)
        cand.append(E.dot(V).dot(Ei))                        # maps the lattice onto itself, not orthogonal in general
        cand.append(np.eye(n) * 2)
        if n > 1:
            S = np.eye(n)
            S[0, 1] = .5
            cand.append(S)
        for Q in cand:
            test(ev, L, E, 'inpointgroup', Q if r.random() < .7 else Q.tolist())
            M = Ei.dot(Q).dot(E)
            Mi = np.rint(M)
            if np.abs(M - Mi).max() < 1e-9:
                M = Mi.astype(int)
            test(ev, L, E, 'inlatticegroup', M)
        test(ev, L, E, 'inlatticegroup', np.array(V))
        test(ev, L, E, 'inlatticegroup', np.array(V).tolist())
        test(ev, L, E, 'inlatticegroup', np.zeros((n, n), dtype=int))
        test(ev, L, E, 'inlatticegroup', 2 * np.eye(n, dtype=int))
        test(ev, L, E, 'inlatticegroup', np.eye(n) * .5)
        test(ev, L, E, 'inpointgroup', np.zeros((n, n)))
        for X in (np.eye(n + 1), np.eye(n + 1, dtype=int), np.ones(n + 1), np.eye(n)[:, :n - 1] if n > 1 else np.ones((1, 2)), np.ones((2, n + 1, n)), 5, np.eye(n + 2)[:n]):
            for f in ('inpointgroup', 'inlatticegroup'):
                ev.append({'op': 'othershape', 'f': f, 'out': out(call(getattr(L, f), X))})
        return
    if k == 'long shears':
        # the cubic lattice in a far sheared basis, and lattices that differ from it by a part of the shear
        n = c['n']
        for f in (0, .5, .25, 2. ** -5, 2. ** -9):
            K = r.choice([1, -1]) * r.choice([r.randint(20, 200), r.randint(200, 3000), r.randint(3000, 60000)])
            i, j = r.sample(range(n), 2)
            E, Ei = np.eye(n), np.eye(n)
            E[i, j] += K + f
            Ei[i, j] -= K + f
            L = must(Lattice, E)
            for _ in range(3):
                Q = sperm(r, n)
                M = Ei.dot(Q).dot(E)
                test(ev, L, E, 'inpointgroup', Q)
                test(ev, L, E, 'inlatticegroup', M)
                test(ev, L, E, 'inlatticegroup', np.rint(M).astype(int))
        return
    from structrans.crystallography import matrix_group as mg
    lid, p, d = bravais(r, None, c['dim'])
    B = must(BravaisLattice, lid, p, d)
    E = must(B.base)
    Ei = np.linalg.inv(E)
    tabs = [mg.CUBIC_LAUE_GROUP, mg.HEX_LAUE_GROUP] if d == 3 else [mg.SQUARE_EXT_GROUP, mg.HEX2D_EXT_GROUP]
    for t in tabs:
        for Q in must(t.matrices):
            Q = np.array(Q) * r.choice([1, -1])
            test(ev, B, E, 'inpointgroup', Q)
            test(ev, B, E, 'inlatticegroup', np.rint(Ei.dot(Q).dot(E)).astype(int))


if __name__ == '__main__':
    import c05
    main(c05)
