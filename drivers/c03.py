from common import *
from gens import *

BAD = ['1d', '3d', 'rect', 'empty', 'str', 'none', 'nan', 'inf', 'ragged', 'scalar', 'strmat', '0d', 'emptymat', 'dict', 'rect2', 'ninf']


def plan(tier, rng, gens):
    big = tier == 'thorough'
    by = {}
    for g in gens:
        by.setdefault(json.dumps(g['a']), []).append(g['b'])
    for a in sorted(by):
        bs = by[a]
        for i in range(0, len(bs), 60):
            yield {'kind': 'spec pairs', 'a': json.loads(a), 'bs': bs[i:i + 60]}
    for i in range(300 if not big else 3000):
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
        yield {'kind': 'family', 'n': n, 'seed': rng.random(), 'scale': rng.choice([0, 0, 0, -30, -12, 12, 30])}
    for i in range(60 if not big else 600):
        yield {'kind': 'long shears', 'n': rng.choice([2, 2, 3, 3, 4]), 'seed': rng.random()}
    for i in range(200 if not big else 2000):
        yield {'kind': 'construct', 'n': rng.choice([1, 2, 3, 4, 5]), 'seed': rng.random(), 'scale': rng.choice([0, 0, 0, -60, -30, -12, 12, 30, 60])}
    for b in BAD:
        yield {'kind': 'malformed', 'w': b}
    for i in range(20):
        yield {'kind': 'bravais', 'seed': rng.random()}


def cmp(ev, x, y, ex, ey):
    """x == y and y == x"""
    for p, r, a, b in ((x, y, ex, ey), (y, x, ey, ex)):
        o = out(call(lambda: p == r))
        ev.append({'op': 'eq', 'a': raw(a), 'b': raw(b), 'out': o, 'ne': out(call(lambda: p != r)), 'rev': p is y and x is not y})


def execute(c, ev):
    from structrans.crystallography import Lattice, BravaisLattice
    k = c['kind']
    if k == 'spec pairs':
        A = must(Lattice, c['a'])
        for b in c['bs']:
            cmp(ev, A, must(Lattice, np.array(b)), c['a'], b)
        return
    if k == 'malformed':
        E = {'1d': [1, 2, 3], '3d': np.ones((2, 2, 2)), 'rect': [[1, 0, 0], [0, 1, 0]], 'empty': [], 'str': 'abc', 'none': None,
             'nan': [[1, 0], [0, float('nan')]], 'inf': [[1, 0], [0, float('inf')]], 'ninf': [[1., 0, 0], [0, 1, 0], [0, float('-inf'), 1]],
             'ragged': [[1, 2], [3]], 'scalar': 3.5, 'strmat': [['a', 'b'], ['c', 'd']], '0d': np.array(2.), 'emptymat': np.zeros((0, 0)), 'dict': {'a': 1},
             'rect2': np.eye(3)[:, :2]}[c['w']]
        r = call(lambda: Lattice(E))
        ev.append({'op': 'new', 'what': c['w'], 'wellformed': False, 'out': out(r)})
        return
    r = random.Random(c['seed'])
    if k == 'construct':
        n = c['n']
        s = 2.0 ** c['scale']
        E = intbasis(r, n, 4)
        w = r.random()
        if w < .4 and n > 1:   # exactly singular, of every rank
            i, j = r.sample(range(n), 2)
            t = r.choice([0, 1, -1, 2])
            E[:, i] = t * E[:, j]
            if r.random() < .5:
                E = E.T.copy()
        elif w < .45:
            E = np.zeros((n, n), dtype=int)
        elif w < .7:
            E = basis(r, n)
        elif w < .8:           # one direction much longer than the others
            E = basis(r, n)
            E[:, r.randrange(n)] *= 2.0 ** r.choice([-12, 12])
        if c['scale']:
            E = E * s
        how = r.choice(['arr', 'list', 'tuple', 'F'])
        X = {'arr': E, 'list': E.tolist(), 'tuple': tuple(tuple(x) for x in E.tolist()), 'F': np.asfortranarray(E)}[how]
        L = call(lambda: Lattice(X))
        if isexc(L):
            ev.append({'op': 'new', 'wellformed': True, 'e': raw(E), 'out': out(L)})
        else:
            ev.append({'op': 'new', 'wellformed': True, 'e': raw(E), 'out': out(call(L.base)), 'dim': out(call(L.dimension))})
            ev.append({'op': 'new', 'wellformed': True, 'e': raw(E), 'out': out(call(L.getbase)), 'dim': out(call(L.dimension))})
        return
    if k == 'bravais':
        lid, p, d = bravais(r, dim=r.choice([2, 3]))
        B = must(BravaisLattice, lid, p, d)
        E = must(B.base)
        U = unimodular(r, d)
        L2 = E.dot(U)
        cmp(ev, B, must(Lattice, L2), E, L2)
        D = np.array(U, dtype=float)
        D[:, 0] *= 2
        L3 = E.dot(D)
        cmp(ev, B, must(Lattice, L3), E, L3)
        for o in (None, 3, 'x', E, E.tolist(), d, object()):
            ev.append({'op': 'eq_other', 'out': out(call(lambda: B == o))})
        return
    if k == 'long shears':
        # a lattice in a far sheared basis, and the same with a shear that is not an integer
        n = c['n']
        E = np.diag([r.choice([1, 1, 2, .5, 1.25]) for _ in range(n)]).dot(unimodular(r, n, 2)) if r.random() < .6 else basis(r, n)
        A = must(Lattice, E)
        for _ in range(4):
            K = r.choice([1, -1]) * r.choice([r.randint(50, 300), r.randint(300, 3000), r.randint(3000, 200000)])
            i, j = r.sample(range(n), 2)
            for f in (0, r.choice([.5, .25, .125, .375]), r.choice([2. ** -7, 2. ** -9, 2. ** -11])):
                S = np.eye(n)
                S[i, j] = K + f * r.choice([1, -1])
                F = E.dot(S)
                B = must(Lattice, F)
                if abs(K) <= 300:
                    cmp(ev, A, B, E, F)
                else:
                    ev.append({'op': 'eq', 'a': raw(E), 'b': raw(F), 'out': out(call(lambda: A == B)), 'ne': out(call(lambda: A != B)), 'rev': False})
        return
    n = c['n']
    s = 2.0 ** c['scale']
    E = (basis(r, n) if r.random() < .6 else intbasis(r, n)) * s
    U = np.array(unimodular(r, n, r.randint(0, 4)))
    fam = [(E, E.copy()), (E, E.dot(U))]
    F = E.dot(U)
    # sublattices of index 2, 3; superlattices; half-integer changes; different lattices
    D = np.eye(n)
    D[0, 0] = r.choice([2, 3])
    V = np.array(unimodular(r, n, 2))
    fam += [(E, E.dot(U).dot(D)), (E, E.dot(np.array(U).dot(np.linalg.inv(D)))), (E, E.dot(U.dot(D).dot(V)))]
    if n > 1:   # determinant one, but not integer; and products of a dilation and its inverse
        D2 = np.eye(n)
        D2[0, 0], D2[1, 1] = 2, .5
        S = np.eye(n)
        S[0, 1] = r.choice([.5, .25, 1.5])
        fam += [(E, E.dot(D2)), (E, E.dot(S)), (E, E.dot(U).dot(S).dot(V))]
    fam += [(E, E * r.choice([1.01, 2, .5, 3])), (F, F.copy())]
    # nearly the same lattice: a small stretch or shear of one basis vector
    for _ in range(3):
        S = np.eye(n)
        i, j = r.randrange(n), r.randrange(n)
        S[i, j] += r.choice([-1, 1]) * r.choice([3e-4, 1e-3, 2e-3, 4e-3, 1e-2, 3e-2])
        fam += [(E, E.dot(S)), (E, E.dot(U).dot(S))]
    Q = rotmat(r, n)
    fam += [(E, Q.dot(E))]
    if r.random() < .5:
        m = n % 3 + 1
        fam.append((E, basis(r, m)))
    for a, b in fam:
        cmp(ev, must(Lattice, a), must(Lattice, b), a, b)
    A = must(Lattice, E)
    for o in (None, 1, 'x', E.copy(), 'Lattice', [[1]], Lattice):
        ev.append({'op': 'eq_other', 'out': out(call(lambda: A == o))})
        if r.random() < .3:
            ev.append({'op': 'eq_other', 'out': out(call(lambda: not (A != o)))})


if __name__ == '__main__':
    import c03
    main(c03)
