"""Batched matrix helpers on the model's batches and on larger and mixed ones."""
from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    by = {}
    for g in gens:
        by.setdefault((g['d'], len(g['l'])), []).append(g)
    for k in sorted(by):
        rng.shuffle(by[k])
        for g in by[k][:60 if not big else 3000]:
            yield {'kind': 'batch of the model', 'd': g['d'], 'l': g['l'], 'm': g['m'], 'seed': rng.random()}
    for rep in range(400 if not big else 4000):
        yield {'kind': 'batch', 'd': rng.choice([1, 2, 3, 4, 5]) if rep % 8 else 6, 'seed': rng.random()}
    for rep in range(150 if not big else 1500):
        yield {'kind': 'rows', 'seed': rng.random()}
    for rep in range(120 if not big else 1200):
        yield {'kind': 'eigenvalues', 'seed': rng.random()}


def mats(r, n, d, t):
    if t == 'int':
        b = r.choice([9, 9, 200, 1000]) if d < 5 else 9
        return np.array([[r.randint(-b, b) for _ in range(d * d)] for _ in range(n)])
    if t == 'full':
        s = 10 ** r.uniform(-3, 5)
        return np.array([[s * r.uniform(-4, 4) for _ in range(d * d)] for _ in range(n)])
    return np.array([[q(r.uniform(-4, 4), 8) for _ in range(d * d)] for _ in range(n)])


def layout(r, a):
    """the same values in another memory layout"""
    k = r.random()
    if k < .6:
        return a
    if k < .8:
        return np.asfortranarray(a)
    b = np.zeros((2 * a.shape[0], a.shape[1]), dtype=a.dtype)
    b[::2] = a
    return b[::2]


def execute(c, ev):
    from structrans import mat_math as mm
    from structrans.marttrans import twin
    from structrans.util import utils
    r = random.Random(c['seed'])
    if c['kind'].startswith('batch'):
        d = c['d']
        if 'l' in c:
            l, m = np.array(c['l']), np.array(c['m'])
            if r.random() < .5:
                l = l * 1.
            if r.random() < .5:
                m = m * 1.
        else:
            n = r.choice([1, 2, 3, 7, 12]) if d < 5 else r.choice([1, 2, 4])
            l, m = mats(r, n, d, r.choice(['int', 'float', 'full'])), mats(r, n, d, r.choice(['int', 'float', 'full']))
            if r.random() < .3 and n > 1:
                l[1] = l[0]
        l, m = layout(r, l), layout(r, m)
        l0, m0 = l.copy(), m.copy()
        base = {'d': d, 'l': raw(l), 'm': raw(m)}
        fs = [('mat_dot', lambda: mm.mat_dot(l, m)), ('mat_trace', lambda: mm.mat_trace(l)), ('mat_det', lambda: mm.mat_det(l)), ('mat_T', lambda: mm.mat_T(l))]
        r.shuffle(fs)
        for n, f in fs:
            ev.append(dict(base, op=n, out=out(call(f))))
        ev.append({'op': 'inputs', 'same': bool(np.array_equal(l, l0) and np.array_equal(m, m0)), 'out': out(True)})
        A = l[0].reshape(d, d)
        ev.append({'op': 'cofactor', 'd': d, 'a': raw(A), 'out': out(call(mm.cofactor, A))})
        if d == 3:
            ev.append({'op': 'cofactor', 'd': d, 'a': raw(A), 'out': out(call(twin._brute_cof, A * 1.))})
    elif c['kind'] == 'rows':
        for _ in range(4):
            n, k = r.randint(1, 14), r.randint(1, 5)
            t = r.choice(['int', 'float', 'zero'])
            S = [[r.randint(-2, 2) if t == 'int' else q(r.uniform(-1, 1), 20) if t == 'float' else r.choice([0., -0., 1., -1.]) for _ in range(k)] for _ in range(r.randint(1, 5))]
            a = np.array([r.choice(S) for _ in range(n)])
            if t == 'float' and r.random() < .4:
                a[r.randrange(n), r.randrange(k)] += 1e-9      # close, but different
            a = layout(r, a)
            o = call(mm.unique_rows, a)
            ev.append({'op': 'unique_rows', 'a': raw(a), 'rows': out(o if isexc(o) else o[0]), 'out': out(o if isexc(o) else np.array(o[1]))})
        s, e = r.randint(-2, 1), r.randint(1, 3)
        ev.append({'op': 'tuple', 's': s, 'e': e, 'out': out(call(mm.tuple, s, e))})
    else:
        d = r.choice([1, 2, 3, 3, 4])
        n = r.choice([1, 3, 6])
        l = []
        for _ in range(n):
            A = np.array([[q(r.uniform(-2, 2), 8) for _ in range(d)] for _ in range(d)])
            A = A + A.T
            if r.random() < .3:
                A = np.diag(np.array([r.choice([-1., 1, 2, 3]) for _ in range(d)]))
            elif r.random() < .5:        # not symmetric, real eigenvalues
                S = np.array(unimodular(r, d, 3))
                A = S.dot(np.diag(r.sample([-5, -3, -2, -1, 1, 2, 4, 7], d))).dot(np.rint(np.linalg.inv(S))) * 1.
            l.append(A.flatten())
        l = layout(r, np.array(l))
        ev.append({'op': 'mat_eig', 'd': d, 'l': raw(l), 'out': out(call(mm.mat_eig, l))})
        for f in (mm.eigSort, utils.sort_eig):
            A = np.array([[q(r.uniform(-2, 2), 8) for _ in range(3)] for _ in range(3)])
            A = A + A.T
            o = call(f, A)
            ev.append({'op': 'eigSort', 'a': raw(A), 'vec': out(o if isexc(o) else o[1]), 'out': out(o if isexc(o) else o[0])})


if __name__ == '__main__':
    import c27
    main(c27)
