"""Lattice reduction of integer and float bases."""
from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:4000 if big else 600]:
        yield {'kind': 'basis of the model', 'e': g['e'], 'seed': rng.random()}
    for i in range(3000 if big else 500):
        yield {'kind': 'random', 'seed': rng.random()}
    for i in range(300 if big else 40):
        yield {'kind': 'long chains', 'seed': rng.random(), 'n': rng.choice([3, 4, 4, 5])}


def make(r):
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])
    w = r.random()
    if w < .3:
        E = np.array(intbasis(r, n, r.choice([2, 5, 20]) if n < 5 else 3))
        if r.random() < .5:
            E = E.dot(unimodular(r, n, r.randint(1, 6)))
        return E if r.random() < .6 else E.tolist()
    if w < .6:
        E = basis(r, n, .05).dot(unimodular(r, n, r.randint(0, 8)))
    elif w < .8:
        # well separated and nearly parallel vectors, long chains of swaps
        E = np.diag([q(r.uniform(.3, 3)) * 2. ** r.randint(-3, 3) for _ in range(n)]).dot(unimodular(r, n, r.randint(4, 12)))
    else:
        E = basis(r, n, .2)
        # ties: equal lengths, coefficients exactly one half
        E = np.array(intbasis(r, n, 2), float) * q(r.uniform(.5, 3))
    s = 10. ** r.choice([0, 0, 0, -3, 3, -6, 5])
    E = E * s
    if r.random() < .1:
        return E.tolist()
    if r.random() < .1:
        return np.asfortranarray(E)
    return E


def other(r, n):
    return np.array(intbasis(r, n, 2), float)


def execute(c, ev):
    from structrans.crystallography import LLL
    from structrans.crystallography.lattice_reduction import Gram_Schmidt
    r = random.Random(c['seed'])
    if 'n' in c:        # a short basis behind many column operations: dozens of exchanges
        n = c['n']
        E = np.array(intbasis(r, n, 1), dtype=float)
        for _ in range(r.randint(8, 13)):
            i, j = r.sample(range(n), 2)
            E[:, i] += r.choice([-3, -2, 2, 3]) * E[:, j]
            if np.abs(E).max() > 3000:
                break
    else:
        E = c['e'] if 'e' in c else make(r)
    if 'e' in c and r.random() < .8:
        E = np.array(E, dtype=r.choice([int, float]))
    keep = raw(E)
    more = r.random() < .3          # another call of the same size before the answer is looked at
    y = call(LLL, E)
    if more:
        call(LLL, other(r, len(E)))
    ev.append({'op': 'lll', 'e': keep, 'out': out(y), 'same': raw(E) == keep})
    if r.random() < .4:
        y = call(Gram_Schmidt, E)
        if more:
            call(Gram_Schmidt, other(r, len(E)))
        if isexc(y):
            ev.append({'op': 'gs', 'e': keep, 'o': [], 'm': [], 'out': out(y), 'same': True})
        else:
            ev.append({'op': 'gs', 'e': keep, 'o': raw(np.array(y[0])), 'm': raw(np.array(y[1])), 'out': out([]), 'same': raw(E) == keep})


if __name__ == '__main__':
    import c22
    main(c22)
