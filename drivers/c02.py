from common import *


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n) if M[0][j])


def rnd(rng, n, b):
    while True:
        M = [[rng.randint(-b, b) for _ in range(n)] for _ in range(n)]
        if det(M):
            return M


def scramble(rng, M, k, big=0):
    n = len(M)
    M = [list(r) for r in M]
    for _ in range(k):
        w = rng.randint(0, 3)
        i, j = rng.sample(range(n), 2) if n > 1 else (0, 0)
        if n == 1 or w == 0:
            for r in M:
                r[i] = -r[i]
        elif w == 1:
            for r in M:
                r[i], r[j] = r[j], r[i]
        else:
            t = rng.choice([-2, -1, 1, 2, 3]) if not big else rng.choice([-1, 1]) * rng.randint(big // 3, big)
            for r in M:
                r[i] += t * r[j]
    return M


def plan(tier, rng, gens):
    by = {}
    for g in gens:
        by.setdefault(json.dumps(g['h']), []).append(g['m'])
    for h in sorted(by):
        ms = by[h]
        for a in range(0, len(ms), 25):
            yield {'kind': 'spec behaviours', 'ms': ms[a:a + 25], 'm': rng.choice(['hnf', 'sublattice'])}
    for i in range(250 if tier == 'quick' else 4000):
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])
        b = {1: 10 ** 6, 2: rng.choice([5, 100, 10000]), 3: rng.choice([2, 10, 100, 1000]), 4: rng.choice([2, 6, 20]), 5: rng.choice([1, 2, 4]), 6: 2}[n]
        if rng.random() < .25:      # the forms and the coefficients of their decomposition leave machine integers
            b = 10 ** rng.randint(2, {1: 12, 2: 9, 3: 7, 4: 5, 5: 4, 6: 3}[n])
        M = rnd(rng, n, b)
        w = rng.random()
        if w < .15 and n > 1:      # zeros in the first row, or upper triangular
            for j in range(1, n):
                M[0][j] = 0
            if M[0][0] == 0:
                M[0][0] = -3
            if det(M) == 0:
                M = rnd(rng, n, b)
        elif w < .3:
            d = [rng.randint(1, 6) for _ in range(n)]
            M = [[d[i] if i == j else (rng.randint(1 - d[i], 0) if j < i else 0) for j in range(n)] for i in range(n)]
        elif w < .4:
            p = rng.sample(range(n), n)
            M = [[rng.choice([-1, 1]) * rng.randint(1, 4) if p[i] == j else 0 for j in range(n)] for i in range(n)]
        ms = [M] + [scramble(rng, M, rng.randint(1, 4)) for _ in range(3)]
        if i % 8 == 3 and n > 1:        # a form whose entries left of the diagonal are far out of range
            d = [rng.randint(1, 9) for _ in range(n)]
            B = 10 ** rng.choice([4, 8, 9, 10, 12]) if n < 4 else 10 ** 4
            tri = lambda: [[d[i] if i == j else (rng.randint(-B, B) if j < i else 0) for j in range(n)] for i in range(n)]
            M = tri()
            yield {'kind': 'long entries', 'ms': [M] + [scramble(rng, M, k) for k in (1, 2)], 'm': rng.choice(['hnf', 'sublattice']), 'as': rng.choice(['arr', 'arr', 'list', 'float'])}
            continue
        if i % 8 == 7 and n > 1:        # long shears: huge second factor
            d = [rng.randint(1, 6) for _ in range(n)]
            M = [[d[i] if i == j else 0 for j in range(n)] for i in range(n)]
            ms = [scramble(rng, scramble(rng, M, 2), 1, rng.choice([300, 70000, 10 ** 6, 3 * 10 ** 9])) for _ in range(3)]
            yield {'kind': 'long shears', 'ms': ms, 'm': rng.choice(['hnf', 'sublattice']), 'as': rng.choice(['arr', 'list', 'float'])}
            continue
        yield {'kind': 'random %dD' % n, 'ms': ms, 'm': rng.choice(['hnf', 'sublattice']), 'as': rng.choice(['arr', 'arr', 'list', 'float'])}


def execute(c, ev):
    from structrans.crystallography import hnf, sublattice
    f = {'hnf': hnf, 'sublattice': sublattice}[c['m']].hnfd
    how = c.get('as', 'arr')
    for i, M in enumerate(c['ms']):
        A = [list(r) for r in M] if how == 'list' else np.array(M, dtype=float if how == 'float' else int)
        if i % 3 != 1:
            r = call(lambda: f(A))
            r = r if isexc(r) else [np.array(x) for x in r] if isinstance(r, (tuple, list)) else r
            ev.append({'op': 'hnfd', 'mod': c['m'], 'm': raw(M), 'out': out(r), 'after': raw(A)})
        else:
            ev.append({'op': 'hnfd_only', 'mod': c['m'], 'm': raw(M), 'out': out(call(lambda: f(A, onlyH=True))), 'after': raw(A)})


if __name__ == '__main__':
    import c02
    main(c02)
