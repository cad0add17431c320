"""Variants: the (group, stretch) pairs of the model on the real class, and richer ones."""
from common import *
from gens import *


def sym(a, b, c, d, e, f):
    return [[a, d, e], [d, b, f], [e, f, c]]


def stretch(rng, w=.1):
    """a stretch with some symmetry, or none, exactly symmetric"""
    bits = 8 if w >= .05 else 16
    x = lambda: q(rng.uniform(-w, w), bits)
    a, b, c = x(), x(), x()
    while min(abs(a - b), abs(b - c), abs(a - c)) < .02 * w / .1:
        a, b, c = x(), x(), x()
    d, e, f = [q(rng.choice([-1, 1]) * rng.uniform(.015, .05) * w / .1, bits) for _ in range(3)]
    k = rng.randrange(10)
    U = [sym(a, a, a, 0, 0, 0), sym(a, a, b, 0, 0, 0), sym(a, b, c, 0, 0, 0), sym(a, a, b, d, 0, 0), sym(a, b, c, d, 0, 0),
         sym(a, a, a, d, d, d), sym(a, a, b, d, e, e), sym(a, b, c, d, e, f), sym(a, a, b, d, e, -e), sym(a, a, a, d, -d, d)][k]
    p = rng.sample(range(3), 3)
    U = np.array(U)[np.ix_(p, p)] + np.eye(3)
    return U.tolist()


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    yes = [g for g in gens if g['rev']]
    no = [g for g in gens if not g['rev']]
    for lst, n in ((yes, 240), (no, 60)):
        for g in lst[:n * (20 if big else 1)]:
            s = rng.choice([1, -1]) * q(rng.uniform(.012, .03), 9)
            yield {'kind': 'orbit of the model', 'g': g['g'], 'U': (np.eye(3) + s * np.array(g['u'])).tolist(), 'seed': rng.random()}
    for rep in range(60 if not big else 1500):
        yield {'kind': 'cubic', 'lid': rng.choice([None, None, 1, 2, 3]), 'U': stretch(rng), 'seed': rng.random()}
    for rep in range(40 if not big else 600):
        yield {'kind': 'Bravais type', 'lid': rng.randint(1, 14), 'U': stretch(rng), 'seed': rng.random()}
    for rep in range(30 if not big else 300):
        yield {'kind': 'turned group', 'turn': 1, 'lid': rng.choice([1, 4, 5, 6, 8]), 'U': stretch(rng), 'seed': rng.random()}
    for rep in range(25 if not big else 250):
        yield {'kind': 'large or scaled stretch', 'lid': None, 'U': (q(rng.choice([.5, 1, 3.5, 20, 1, 1]), 4) * np.array(stretch(rng, .25))).tolist(), 'seed': rng.random()}
    for rep in range(60 if not big else 600):
        yield {'kind': 'small stretch', 'lid': rng.choice([None, None, 6, 8, 12]), 'U': stretch(rng, rng.choice([.02, .008, .004, .002])).copy(), 'seed': rng.random()}
    yield {'kind': 'no stretch', 'U': None, 'seed': rng.random()}


def execute(c, ev):
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP, BravaisLattice
    from structrans.marttrans import Martensite
    r = random.Random(c['seed'])
    if c['U'] is None:
        for f in ('getvariants', 'isreversible', 'getLaueidx', 'calcvariants', 'getU'):
            ev.append({'op': 'no stretch', 'f': f, 'out': out(call(getattr(Martensite(), f)))})
        ev.append({'op': 'no stretch', 'f': 'getvariant', 'out': out(call(Martensite().getvariant, 1))})
        return
    U = np.array(c['U'])
    if 'g' in c:
        g = [np.array(m) for m in c['g']]
        r.shuffle(g)
        M = must(Martensite, U, must(MatrixGroup, g))
    elif c.get('turn'):
        R = rotmat(r)
        g = [R.dot(m).dot(R.T) for m in must(must(BravaisLattice, *bravais(r, c['lid'])).Laue_group).matrices()]
        r.shuffle(g)
        U = R.dot(U).dot(R.T)
        U = (U + U.T) / 2
        M = must(Martensite, U, must(MatrixGroup, g))
    else:
        M = must(Martensite, U) if r.random() < .5 else must(Martensite().setU, U)
        if c['lid']:
            M = must(M.setLaue, c['lid'])
    G = [np.array(m) for m in must(must(M.getLaue).matrices)]
    base = {'g': raw(G), 'u': raw(U)}
    order = ['getvariants', 'getLaueidx', 'isreversible', 'getvariant']
    r.shuffle(order)
    ev.append(dict(base, op='laue', out=out(True)))
    n = None
    for f in order:
        if f == 'getvariant':
            if n is None:
                v = call(M.getvariants)
                n = 1 if isexc(v) else len(v)
            ks = range(1, n + 1) if n <= 6 else r.sample(range(1, n + 1), 6)
            full = call(Martensite(U, M.getLaue()).getvariants)
            for k in ks:
                ev.append({'op': 'getvariant', 'n': k, 'all': out(full), 'out': out(call(M.getvariant, k))})
        elif f == 'getvariants':
            y = call(M.getvariants)
            n = None if isexc(y) else len(y)
            ev.append({'op': f, 'out': out(y)})
        elif f == 'getLaueidx':
            y = call(M.getLaueidx)
            v = call(M.getvariants)
            ev.append({'op': f, 'vs': out(v), 'out': out(y if isexc(y) else [[int(i) for i in x] for x in y])})
        else:
            ev.append({'op': f, 'out': out(call(M.isreversible))})


if __name__ == '__main__':
    import c11
    main(c11)
