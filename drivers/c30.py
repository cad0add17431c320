"""Quartic forms of pairs of bases, as the direct search builds them and symmetrised, several random starts each."""
from common import *
from gens import *
import itertools
from c17 import pair, bases


def rot(t):
    return np.array([[[1, 0], [0, 1]], [[.6, -.8], [.8, .6]], [[5 / 13., 12 / 13.], [-12 / 13., 5 / 13.]]][t])


def minimum(A, M):
    p = np.sort(np.linalg.eigvalsh(np.linalg.inv(A.dot(A.T))))
    q_ = np.sort(np.linalg.eigvalsh(M.dot(M.T)))
    return 1 / np.sum((p * q_) ** 2)


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:400 if big else 48]:
        yield dict(g, kind='pair of the model', seed=rng.randrange(10 ** 6), sym=rng.random() < .5)
    k = 0
    while k < (400 if big else 40):
        n = 2 if k % 8 else 3
        A = np.diag([q(rng.uniform(.5, 4), 4) for _ in range(n)]).dot(np.array(unimodular(rng, n, 2)))
        M = np.array(unimodular(rng, n, 2)).dot(np.diag([q(rng.uniform(.5, 4), 4) for _ in range(n)]))
        if 2e-4 < minimum(A, M) < 5:
            k += 1
            yield {'kind': '%dD bases' % n, 'A': A.tolist(), 'M': M.tolist(), 'seed': rng.randrange(10 ** 6), 'sym': rng.random() < .5}
    for i in range(80 if big else 5):
        c = pair(rng, 3, 1, 4.5)
        yield dict(c, kind='3D Bravais', seed=rng.randrange(10 ** 6), sym=False)


def form(A, M, sym):
    n = len(A)
    Mi = np.linalg.inv(M)
    # F[i,j] = B[i,j,x] l[x]
    B = np.einsum('ik,lj->ijkl', A, Mi).reshape(n, n, n * n)
    # C[i,j] = F[i,k] F[j,k]
    C = np.einsum('ikx,jky->ijxy', B, B)
    T = np.einsum('ijxy,ijzw->xyzw', C, C)
    if sym:
        T = sum(T.transpose(p) for p in itertools.permutations(range(4))) / 24.
    return T


def execute(c, ev):
    from structrans.marttrans.lat_cor.quartic_opt import quart_min
    if 'A' in c:
        A, M = np.array(c['A'], float), np.array(c['M'], float)
    elif 'ra' in c:
        A = rot(c['ra']).dot(np.diag(c['a'])).dot(rot(2))
        M = rot(c['rm']).dot(np.diag(c['m'])).dot(rot(1))
    else:
        A, M = bases(c)
    T = form(A, M, c['sym'])
    np.random.seed(c['seed'])
    ys = [call(quart_min, T.copy(), limit=300) for _ in range(2 if len(A) == 2 else 1)]
    ev.append({'op': 'min', 'a': raw(A), 'm': raw(M), 'out': [out(y) for y in ys]})


if __name__ == '__main__':
    import c30
    main(c30)
