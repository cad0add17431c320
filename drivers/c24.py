"""Twin parameters of the model's pairs (any order of questions), of variants of real groups, of free pairs."""
from common import *
from gens import *
from c11 import stretch
from c23 import related, nearmid, symm, halfturn, orbit, axis

QS = ['twinparam', 'XI', 'XII', 'direct_cof', 'ax', 'twinparam']

HOLD = False        # the driver writes to the answers itself


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:400 if not big else 8000]:
        yield {'kind': 'pair of the model', 'u': (np.array(g['u']) / rng.choice([4., 4.5, 5.])).tolist(), 'e': g['e'], 'log': g['log'] + [rng.choice(QS)], 'seed': rng.random()}
    for rep in range(600 if not big else 6000):
        yield {'kind': 'turned stretch', 'log': [rng.choice(QS) for _ in range(4)], 'seed': rng.random()}
    for rep in range(120 if not big else 1200):
        yield {'kind': 'variants', 'log': [rng.choice(QS) for _ in range(3)], 'U': stretch(rng, rng.choice([.1, .2])), 'seed': rng.random()}
    for rep in range(100 if not big else 1500):
        yield {'kind': 'near the tolerance', 'log': [rng.choice(QS) for _ in range(3)] + ['twinparam'], 'seed': rng.random()}
    for rep in range(40 if not big else 500):
        yield {'kind': 'free pair', 'log': rng.sample(QS, 5), 'seed': rng.random()}


def questions(ev, p, U, V, e, log, r):
    base = {'u': raw(U), 'v': raw(V), 'e': [] if e is None else raw(e)}
    for q in log:
        o = call(getattr(p, q))
        x = [] if q != 'direct_cof' or isexc(o) else [raw(y) for s in must(p.twinparam) for y in s[1:]]
        ev.append(dict(base, op=q, out=out(o), tp=x))
        if not isexc(o) and r.random() < .4:       # the caller's copy
            if q == 'twinparam':
                for s in o:
                    for x in s:
                        x[...] = 9
            elif q == 'ax':
                for x in o:
                    x[...] = 9


def execute(c, ev):
    from structrans.crystallography import CUBIC_LAUE_GROUP
    from structrans.crystallography.matrix_group import HEX_LAUE_GROUP
    from structrans.marttrans.twin import TwinSystem, TwinPair
    r = random.Random(c['seed'])
    if c['kind'] == 'pair of the model':
        U = np.array(c['u'])
        e = np.array(c['e'], dtype=float)
        R = halfturn(e)
        V = symm(R.dot(U).dot(R))
        questions(ev, must(TwinPair, U, V), U, V, e, c['log'], r)
    elif c['kind'] == 'turned stretch':
        U = np.array(stretch(r, r.choice([.03, .1, .1, .2, .4])))
        if np.linalg.eigvalsh(U)[0] < .2:
            U = np.array(stretch(r))
        s = r.choice([1, 1, 1, .5, 2, 3])
        if r.random() < .35:           # volume preserving
            s = np.linalg.det(U) ** (-1 / 3.)
        U = symm(s * U)
        if r.random() < .5:
            R = rotmat(r)
            U = symm(R.dot(U).dot(R.T))
        V, e = related(r, U)
        if V is not None:
            questions(ev, must(TwinPair, U, V), U, V, e, c['log'], r)
    elif c['kind'] == 'variants':
        g = r.choice([CUBIC_LAUE_GROUP, CUBIC_LAUE_GROUP, HEX_LAUE_GROUP])
        Us = orbit(must(g.matrices), np.array(c['U']))
        r.shuffle(Us)
        ts = must(TwinSystem, Us, g)
        tps = must(ts.getTwinpairs)
        for p in r.sample(tps, min(4, len(tps))):
            U, V = must(p.Ui), must(p.Uj)
            h = [q for q in must(g.matrices) if abs(np.trace(q) + 1) < 1e-9 and np.abs(q.dot(U).dot(q.T) - V).max() < 1e-12]
            e = None
            if h:
                w = (h[0] + np.eye(3)).T
                e = max(w, key=lambda x: np.dot(x, x))
            questions(ev, p, U, V, e, c['log'], r)
    elif c['kind'] == 'near the tolerance':
        U = np.array(stretch(r, r.choice([.1, .2])))
        V = nearmid(r, U)
        questions(ev, must(TwinPair, U, V), U, V, None, c['log'], r)
    else:
        U = np.array(stretch(r, .1))
        V = np.array(stretch(r, .1)) if r.random() < .6 else U.copy() if r.random() < .4 else np.diag(r.sample(list(np.diag(U)), 3)) if r.random() < .5 else U[np.ix_([1, 2, 0], [1, 2, 0])]
        questions(ev, must(TwinPair, U, V), U, V, None, c['log'], r)


if __name__ == '__main__':
    import c24
    main(c24)
