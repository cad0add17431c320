"""Compatibility of the model's processes and of random deformations; the two rank-one solvers; stretch tensors."""
from common import *
from gens import *

sym = lambda A: (A + A.T) / 2


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    yes = [g for g in gens if g['ok']]
    no = [g for g in gens if not g['ok']]
    for lst in (yes, no):
        lst = lst[:1200 if not big else 20000]
        for i in range(0, len(lst), 10):
            yield {'kind': 'processes of the model', 'ab': [(g['a'], g['b']) for g in lst[i:i + 10]], 'seed': rng.random()}
    for k, n in (('random deformations', 60), ('tensors', 90), ('stretch tensors', 30)):
        for rep in range(n * (20 if big else 1)):
            yield {'kind': k, 'seed': rng.random()}


def tensor(r):
    """a symmetric tensor with chosen eigenvalues"""
    if r.random() < .12:
        # almost no deformation, but a compatible one
        t = r.choice([1e-2, 1e-3, 3e-4, 1e-4, 4e-5, 1e-5, 3e-6])
        lam = [1 - t * r.choice([0, 1, 1, r.random()]), 1., 1 + t * r.uniform(.2, 1.5)]
        if r.random() < .3:
            return np.diag([lam[i] for i in r.sample(range(3), 3)])
        R = rotmat(r)
        return sym(R.dot(np.diag(lam)).dot(R.T))
    mid = 1 + r.choice([0, 0, 0, 0, 0, 0, 1e-7, 5e-5, 2e-4, -2e-4, 1e-3, -1e-3, 1e-2, -.1, .2])
    a, b = r.uniform(.02, .7), r.uniform(.02, 1.5)
    k = r.random()
    if k < .6:
        lam = [1 - a, mid, 1 + b]
    elif k < .7:
        lam = [1, mid, 1 + b]
    elif k < .8:
        lam = [1 - a, mid, 1]
    elif k < .9:
        lam = [mid, 1 + a, 1 + b + a]
    else:
        lam = [1 - a, 1 - a / 2, mid] if mid > 1 - a / 2 else [1 - a, mid, 1.3]
    if r.random() < .25:
        p = r.sample(range(3), 3)
        return np.diag([lam[i] for i in p]) * 1.
    R = exact_rot(r) if r.random() < .3 else rotmat(r)
    return sym(R.dot(np.diag(lam)).dot(R.T))


def solvers(ev, C, r):
    from structrans.marttrans.Compatibility import AM_Solver
    from structrans.util import utils
    C = C.astype(float) if r.random() < .8 else C
    for n, f in r.sample([('AM_Solver', AM_Solver), ('solve_rank1', utils.solve_rank1)], 2):
        D = C.copy()
        o = call(f, D)
        ev.append({'op': n, 'c': raw(C), 'same': bool(np.array_equal(C, D)), 'out': out(o) if isexc(o) or o is None else out(np.array(o))})


def execute(c, ev):
    from structrans.marttrans.Compatibility import isCompatible
    from structrans.util import utils
    r = random.Random(c['seed'])
    if 'ab' in c:
        for a, b in c['ab']:
            A, B = np.array(a), np.array(b)
            k = r.random()
            if k < .3:
                A, B = A.astype(float), B.astype(float)
            elif k < .6:
                A = rotmat(r).dot(A)
            elif k < .7:
                s = r.choice([.25, 3., .1])
                A, B = s * A, s * B
            if r.random() < .3:
                A, B = B, A
            ev.append({'op': 'isCompatible', 'a': raw(A), 'b': raw(B), 'out': out(call(isCompatible, A, B))})
            if np.array_equal(b, np.eye(3)):
                C = np.array(a).T.dot(a)
                if np.abs(C - np.eye(3)).max() > .5 and r.random() < .4:
                    solvers(ev, C, r)
    elif c['kind'] == 'random deformations':
        for _ in range(8):
            B = rotmat(r).dot(np.diag([r.uniform(.5, 2) for _ in range(3)])).dot(rotmat(r))
            k = r.random()
            if k < .45:
                C = tensor(r)
                w, v = np.linalg.eigh(C)
                A = rotmat(r).dot(v.dot(np.diag(np.sqrt(w))).dot(v.T)).dot(B)
            elif k < .7:
                b, m = [np.array([r.uniform(-1, 1) for _ in range(3)]) for _ in range(2)]
                if 1 + b.dot(m) < .2:
                    b = -b
                A = (np.eye(3) + np.outer(b, m)).dot(B)
            elif k < .8:
                A = rotmat(r).dot(B)
            else:
                A = rotmat(r).dot(np.diag([r.uniform(.5, 2) for _ in range(3)])).dot(rotmat(r))
            ev.append({'op': 'isCompatible', 'a': raw(A), 'b': raw(B), 'out': out(call(isCompatible, A, B))})
        x = r.choice([np.eye(3).tolist(), None, 3., 'A', (1, 2)])
        ev.append({'op': 'not arrays', 'out': out(call(isCompatible, x, np.eye(3)) if r.random() < .5 else call(isCompatible, np.eye(3), x))})
    elif c['kind'] == 'tensors':
        for _ in range(4):
            solvers(ev, tensor(r), r)
    else:
        for _ in range(12):
            k = r.random()
            A = tensor(r)
            if k < .35:
                A = A * r.choice([1, 1, 1e-3, 1e3, .1])
            elif k < .5:
                i, j = r.sample(range(3), 2)
                A[i, j] += r.choice([1, -1]) * r.choice([1e-3, .01, .1, 1e-4])
            elif k < .75:
                w, v = np.linalg.eigh(A)
                n = r.choice([1, 2, 3])
                w[r.sample(range(3), n)] *= -1
                if r.random() < .2:
                    w[0] = -1e-3
                A = sym(v.dot(np.diag(w)).dot(v.T))
            elif k < .8:
                A = np.array(r.choice([np.zeros((3, 3)), np.diag([1, 1, 0.]), np.diag([0, 2., 0]), np.ones((3, 3))]))
            elif k < .9:
                A = r.choice([np.eye(2), np.eye(4), np.ones((3, 2)), np.ones(9), np.ones((2, 3)), np.array(2.), np.ones((1, 3, 3)), np.eye(3).reshape(9)])
            if k > .95:
                A = (np.diag([r.randint(3, 6) for _ in range(3)]) + r.choice([0, 1, -1]) * (np.ones((3, 3)) - np.eye(3))).astype(int)
            ev.append({'op': 'pos_def_sym', 'shape': list(np.shape(A)), 'a': raw(A) if np.shape(A) == (3, 3) else [], 'out': out(call(utils.pos_def_sym, A))})
            if np.shape(A) == (3, 3):
                ev.append({'op': 'refuse', 'a': raw(A), 'out': out(call(utils.solve_rank1, A)) if r.random() < .5 else {'t': 'none', 'v': 0}})
        for x in (np.eye(3).tolist(), 3, None, 'U', [[1, 0], [0, 1]]):
            ev.append({'op': 'pos_def_sym', 'shape': [], 'a': [], 'out': out(call(utils.pos_def_sym, x))})


if __name__ == '__main__':
    import c26
    main(c26)
