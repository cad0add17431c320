"""Subgroup test on the subgroups found by the model (reordered, turned), and on other groups."""
from common import *
from gens import *

S3 = np.sqrt(3) / 2
EH = np.array([[1, .5, 0], [0, S3, 0], [0, 0, 1.]])


def cyc2(n, mirror):
    R = [np.array([[np.cos(2 * np.pi * k / n), -np.sin(2 * np.pi * k / n)], [np.sin(2 * np.pi * k / n), np.cos(2 * np.pi * k / n)]]) for k in range(n)]
    return R + ([r.dot(np.diag([1., -1])) for r in R] if mirror else [])


def plan(tier, rng, gens):
    big = tier == 'thorough'
    subs = [[(m if g['name'] != 'hex' else EH.dot(np.array(m)).dot(np.linalg.inv(EH)).tolist()) for m in g['g']] for g in gens]
    name = [('hex' if g['name'] == 'hex' else 'cube') for g in gens]
    n = len(subs)
    pairs = [(i, j) for i in range(n) for j in range(n)]
    pairs = [p for p in pairs if name[p[0]] == name[p[1]] or rng.random() < .3]
    if big:
        pairs = [p for p in pairs if rng.random() < .4]
    step = 12
    for i in range(0, len(pairs), step):
        yield {'kind': 'subgroups of the cubic and hexagonal groups', 'pairs': [(subs[a], subs[b]) for a, b in pairs[i:i + step]], 'mode': rng.choice(['plain', 'plain', 'turned']), 'seed': rng.random()}
    for rep in range(6 if not big else 60):
        yield {'kind': 'tilted', 'pairs': [(lambda k: (subs[k], subs[k]))(rng.randrange(n)) for _ in range(4)], 'mode': 'tilt', 'seed': rng.random()}
    for rep in range(150 if not big else 1000):
        i = rng.randrange(n)
        j = i if rng.random() < .6 else rng.choice([j for j in range(n) if name[j] == name[i]])
        yield {'kind': 'sheared to a rounding boundary', 'pairs': [(subs[i], subs[j])] * 3, 'mode': 'sheared', 'seed': rng.random()}
    for rep in range(60 if not big else 600):
        i = rng.randrange(n)
        yield {'kind': 'far sheared bases', 'pairs': [(subs[i], subs[i])] * 2, 'mode': 'far', 'seed': rng.random()}
    two = [cyc2(k, m) for k in (1, 2, 3, 4, 5, 6, 7, 8, 12) for m in (0, 1)]
    prs = [(a, b) for a in two for b in two]
    for i in range(0, len(prs), 30):
        yield {'kind': '2D groups', 'pairs': prs[i:i + 30], 'mode': 'plain', 'seed': rng.random()}
    for rep in range(8):
        yield {'kind': 'different dimensions', 'pairs': [(rng.choice(two), rng.choice(subs)) for _ in range(6)] + [(rng.choice(subs), rng.choice(two)) for _ in range(6)], 'mode': 'plain', 'seed': rng.random()}
    yield {'kind': 'tables', 'mode': 'tables', 'pairs': [], 'seed': rng.random()}
    yield {'kind': 'not a group', 'mode': 'bad', 'pairs': [], 'seed': rng.random()}


def execute(c, ev):
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP, Lattice, BravaisLattice
    from structrans.crystallography.matrix_group import HEX_LAUE_GROUP
    r = random.Random(c['seed'])

    def add(A, B, gA=None, gB=None):
        ga = gA if gA is not None else must(MatrixGroup, A)
        gb = gB if gB is not None else must(MatrixGroup, B)
        ev.append({'op': 'hassubgroup', 'host': raw([np.array(m) for m in A]), 'cand': raw([np.array(m) for m in B]), 'out': out(call(ga.hassubgroup, gb))})
    for A, B in c['pairs']:
        A, B = [np.array(m) for m in A], [np.array(m) for m in B]
        if r.random() < .5:
            A = [a.astype(float) for a in A]
        r.shuffle(A)
        r.shuffle(B)
        if c['mode'] == 'turned':
            R = rotmat(r)
            A = [R.dot(a).dot(R.T) for a in A]
            if r.random() < .8:
                B = [R.dot(b).dot(R.T) for b in B]
        if c['mode'] == 'sheared':
            # entries of the elements lie within 1e-13 of a decimal where a rounding or a truncation jumps
            d, i, j = 10. ** -r.randint(0, 12), *r.sample(range(len(A[0])), 2)
            h = (r.randint(0, 9) + r.choice([.5, .25, 0, 1])) * d * r.choice([1, -1])
            P, Q = np.eye(len(A[0])), np.eye(len(A[0]))
            P[i, j], Q[i, j] = h, -h
            noise = lambda: np.array([[r.choice([0, 1, -1]) * 10. ** -r.randint(12, 15) for y in A[0]] for x in A[0]])
            A = [P.dot(a).dot(Q) + noise() for a in A]
            B = [P.dot(b).dot(Q) + noise() for b in B]
        if c['mode'] == 'far':
            # the same group written in two bases that differ little compared with the entries
            i, j = r.sample(range(len(A[0])), 2)
            K = r.choice([1, -1]) * r.choice([r.randint(100, 2000), r.randint(2000, 300000)])
            def in_basis(X, h):
                P, Q = np.eye(len(X[0])), np.eye(len(X[0]))
                P[i, j], Q[i, j] = h, -h
                X = [P.dot(x).dot(Q) for x in X]
                return [np.rint(x).astype(int) for x in X] if all((x == np.rint(x)).all() for x in X) else X
            A, B = in_basis(A, K), in_basis(B, K + r.choice([0, 0, 1, 2, .5, .25, -1, 2. ** -7]))
        if c['mode'] == 'tilt':
            t = r.choice([.002, .004, .01, .05, .3])
            R = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])[:, [0, 1, 2]]
            p = r.sample(range(3), 3)
            R = R[np.ix_(p, p)]
            B = [R.dot(b).dot(R.T) for b in B]
        add(A, B)
    if c['mode'] == 'tables':
        T = [CUBIC_LAUE_GROUP, HEX_LAUE_GROUP]
        for lid in range(1, 15):
            T.append(must(must(BravaisLattice, *bravais(r, lid)).Laue_group))
        T += [must(must(BravaisLattice, *bravais(r, lid, 2)).point_group) for lid in range(1, 6)]
        for a in T:
            for b in T:
                add(must(a.matrices), must(b.matrices), a, b)
    if c['mode'] == 'bad':
        for g in (CUBIC_LAUE_GROUP, HEX_LAUE_GROUP, MatrixGroup([np.eye(2)])):
            for x in (None, 3, [np.eye(3)], np.array([np.eye(3)]), 'group', Lattice(np.eye(3)), [], {}, g.matrices()):
                ev.append({'op': 'not a group', 'out': out(call(g.hassubgroup, x))})


if __name__ == '__main__':
    import c10
    main(c10)
