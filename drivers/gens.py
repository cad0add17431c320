"""Input generators shared by the drivers (deterministic in the rng they are given)."""
import math
import numpy as np

PLEN = {3: [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6], 2: [1, 2, 2, 1, 3]}


def q(x, k=6):
    """a float with few bits, so that exact arithmetic stays cheap"""
    return round(x * 2 ** k) / float(2 ** k)


def length(rng, lo=1.0, hi=6.0):
    return max(0.25, q(rng.uniform(lo, hi)))


def distinct(rng, n, gap=0.1):
    """n lengths, pairwise well separated and without simple ratios"""
    while True:
        v = [length(rng) for _ in range(n)]
        ok = True
        for i in range(n):
            for j in range(i):
                r = max(v[i], v[j]) / min(v[i], v[j])
                if abs(r - 1) < gap:
                    ok = False
                for s in (math.sqrt(2), math.sqrt(3), math.sqrt(1.5), 2, math.sqrt(8 / 3.), math.sqrt(1.5) / 2, math.sqrt(6), math.sqrt(6)/4, 3):
                    if abs(r / s - 1) < 0.03 or abs(r * s - 1) < 0.03:
                        ok = False
        if ok:
            return v


def tri_ok(al, be, ga, m=0.08):
    ca, cb, cg = [math.cos(math.radians(x)) for x in (al, be, ga)]
    return 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg > m


def angle(rng, lo, hi, avoid=(30, 45, 60, 90, 120, 135, 150), gap=2.5):
    while True:
        a = q(rng.uniform(lo, hi), 4)
        if all(abs(a - x) > gap for x in avoid):
            return a


def bravais(rng, lid=None, dim=3, generic=True):
    """(id, params, dim) of a valid Bravais lattice, generic for its type"""
    if lid is None:
        lid = rng.randint(1, len(PLEN[dim]))
    if dim == 2:
        if lid in (1, 4):
            p = [length(rng)]
        elif lid in (2, 3):
            p = distinct(rng, 2)
        else:
            p = distinct(rng, 2) + [angle(rng, 35, 145)]
        return lid, p, 2
    if lid <= 3:
        p = [length(rng)]
    elif lid in (4, 6, 7):
        p = distinct(rng, 2)
    elif lid == 5:
        p = [length(rng), angle(rng, 40, 112, avoid=(60, 90, 109.47, 33.557), gap=3)]
    elif lid <= 11:
        p = distinct(rng, 3)
    elif lid <= 13:
        p = distinct(rng, 3) + [angle(rng, 60, 125)]
    else:
        while True:
            an = [angle(rng, 50, 120) for _ in range(3)]
            if tri_ok(*an) and min(abs(an[0] - an[1]), abs(an[1] - an[2]), abs(an[0] - an[2])) > 2:
                break
        p = distinct(rng, 3) + an
    return lid, p, 3


def special(rng, lid, dim=3):
    """valid parameters with coincidences (equal lengths, right angles)"""
    l, p, d = bravais(rng, lid, dim)
    n = len(p)
    p = list(p)
    for i in range(1, min(n, 3)):
        if not (lid == 5 and dim == 3) and not (lid == 5 and dim == 2 and i == 2) and rng.random() < .6:
            p[i] = p[0]
    if dim == 3 and lid in (12, 13) and rng.random() < .5:
        p[3] = 90.
    if dim == 3 and lid == 5 and rng.random() < .5:
        p[1] = rng.choice([90., 60.])
    if dim == 3 and lid == 14 and rng.random() < .7:
        p[3:] = rng.choice([[90., 90., 90.], [90., 90., 120.], [60., 60., 60.], [90., 100., 90.], [70., 70., 70.]])
    if dim == 2 and lid == 5 and rng.random() < .7:
        p[2] = rng.choice([90., 60., 120.])
    return l, p, d


def unimodular(rng, n, k=3, both=True):
    U = [[int(i == j) for j in range(n)] for i in range(n)]
    if n == 1:
        return [[rng.choice([1, -1]) if both else 1]]
    for _ in range(k):
        i, j = rng.sample(range(n), 2)
        t = rng.choice([-1, 1, 1, -2])
        w = rng.random()
        if w < .7:
            U = [[r[c] + (t * r[j] if c == i else 0) for c in range(n)] for r in U]
        elif w < .85:
            U = [[-r[j] if c == i else r[i] if c == j else r[c] for c in range(n)] for r in U]
        elif both:
            U = [[-r[c] if c == i else r[c] for c in range(n)] for r in U]
    return U


def rotmat(rng, n=3):
    """a rational-looking random rotation (floats)"""
    if n == 1:
        return np.eye(1)
    A = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    Q, R = np.linalg.qr(A)
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def exact_rot(rng):
    """a rotation with small rational entries, as floats: from an integer quaternion"""
    while True:
        a, b, c, d = [rng.randint(-3, 3) for _ in range(4)]
        s = a * a + b * b + c * c + d * d
        if s:
            break
    return np.array([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                     [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                     [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]) / float(s)


def basis(rng, n, lo=0.15):
    """a well conditioned random basis with few bits"""
    while True:
        E = np.array([[q(rng.uniform(-3, 3)) for _ in range(n)] for _ in range(n)])
        s = np.linalg.svd(E, compute_uv=False)
        if s[-1] > lo * s[0]:
            return E


def intbasis(rng, n, b=3):
    while True:
        E = np.array([[rng.randint(-b, b) for _ in range(n)] for _ in range(n)])
        if abs(np.linalg.det(E)) > .5:
            return E


ORDER = {3: [48, 48, 48, 24, 12, 16, 16, 8, 8, 8, 8, 4, 4, 2], 2: [8, 4, 4, 12, 2]}


def isometries(E, tol=1e-7):
    """orthogonal matrices mapping the lattice E onto itself"""
    import itertools
    E = np.array(E, float)
    n = len(E)
    G = E.T.dot(E)
    Gi = np.linalg.inv(G)
    ims = []
    for j in range(n):
        b = [int(math.sqrt(G[j, j] * Gi[i, i]) + 1e-6) for i in range(n)]
        ims.append([v for v in itertools.product(*[range(-x, x + 1) for x in b]) if abs(np.dot(v, G.dot(v)) - G[j, j]) < tol * G[j, j]])
    res = []
    for c in itertools.product(*ims):
        L = np.array(c, float).T
        if np.abs(L.T.dot(G).dot(L) - G).max() < tol * np.abs(G).max():
            res.append(E.dot(L).dot(np.linalg.inv(E)))
    return res


def plain(E, lid, dim):
    """the symmetries are the ones of the type, or all along the axes: no accidental symmetry axes elsewhere"""
    qs = isometries(E)
    return len(qs) == ORDER[dim][lid - 1] or all(np.abs(np.abs(q) - np.rint(np.abs(q))).max() < 1e-6 for q in qs)
