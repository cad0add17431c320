"""Twin systems of the model's (stretch, group, order of questions), of real variant sets and of free lists; single pairs."""
from common import *
from gens import *
from c11 import stretch

Q = ['table', 'pairs', 'conv', 'comp', 'typeI']

HOLD = False        # the driver writes to the answers itself


def halfturn(e):
    e = np.array(e, dtype=float)
    e = e / np.linalg.norm(e)
    return 2 * np.outer(e, e) - np.eye(3)


def symm(U):
    return (U + U.T) / 2


def axis(r):
    if r.random() < .4:
        while True:
            e = [r.randint(-2, 2) for _ in range(3)]
            if any(e):
                return np.array(e, dtype=float)
    return np.array([r.gauss(0, 1) for _ in range(3)])


def related(r, U, gap=.01):
    """(V, e): V the image of U under the 180 degree rotation about e, clearly different from U"""
    for _ in range(60):
        e = axis(r)
        e = e / np.linalg.norm(e)
        if r.random() < .4:
            w, v = np.linalg.eigh(U)
            p = r.sample(range(3), 2)
            t = r.uniform(.2, 1.3)
            e = np.cos(t) * v[:, p[0]] + np.sin(t) * v[:, p[1]]
        R = halfturn(e)
        V = symm(R.dot(U).dot(R))
        if np.abs(U - V).max() > gap:
            return V, e
    return None, None


def nearmid(r, U):
    """V for which the middle eigenvalue of U^-1 V^2 U^-1 is given: inside or outside the tolerance"""
    t = r.choice([1, -1]) * r.choice([0, 1e-4, 2e-3, 4e-3, 4.8e-3, 5.3e-3, 6e-3, 1e-2, 4e-2])
    lam = [1 - r.uniform(.05, .2), 1 + t, 1 + r.uniform(.05, .2)]
    if r.random() < .15:
        lam = [1 + t, 1.1, 1.2] if r.random() < .5 else [.8, .9, 1 + t]
    R = rotmat(r)
    C2 = U.dot(R.T).dot(np.diag(lam)).dot(R).dot(U)
    w, v = np.linalg.eigh(symm(C2))
    return symm(v.dot(np.diag(np.sqrt(w))).dot(v.T))


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    long = [g for g in gens if len(g['log']) > 1]
    short = [g for g in gens if len(g['log']) == 1]
    for lst, n in ((long, 60), (short, 120)):
        for g in lst[:n * (20 if big else 1)]:
            yield {'kind': 'twin system of the model', 'g': g['g'], 'U': (np.array(g['u']) / rng.choice([4., 5., 5., 4.5])).tolist(), 'log': g['log'] if len(g['log']) > 1 else rng.sample(Q, 3), 'seed': rng.random()}
    for rep in range(80 if not big else 800):
        yield {'kind': 'martensite', 'lid': rng.choice([0, 0, 0] + list(range(1, 15))), 'log': [rng.choice(Q) for _ in range(3)], 'U': stretch(rng, rng.choice([.1, .1, .25, .01, .003])), 'seed': rng.random()}
    for rep in range(60 if not big else 1500):
        yield {'kind': 'list', 'log': [rng.choice(Q) for _ in range(3)], 'seed': rng.random()}
    for rep in range(60 if not big else 1500):
        yield {'kind': 'pairs', 'seed': rng.random()}
    yield {'kind': 'bad', 'seed': rng.random()}


def groups(r):
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP, BravaisLattice
    from structrans.crystallography.matrix_group import HEX_LAUE_GROUP
    k = r.random()
    if k < .3:
        return CUBIC_LAUE_GROUP
    if k < .5:
        return HEX_LAUE_GROUP
    if k < .8:
        return must(must(BravaisLattice, *bravais(r, r.randint(1, 14))).Laue_group)
    R = rotmat(r)
    return must(MatrixGroup, [R.dot(q).dot(R.T) for q in (CUBIC_LAUE_GROUP if r.random() < .5 else HEX_LAUE_GROUP).matrices()])


def orbit(G, U):
    V = []
    for q in G:
        W = symm(np.dot(q, U).dot(np.transpose(q)))
        if all(np.abs(W - x).max() > 1e-9 for x in V):
            V.append(W)
    return V


def ask(ts, q):
    f = {'table': ts.TwinTable, 'conv': ts.getConventional, 'comp': ts.getCompound, 'typeI': ts.getTypeI, 'typeII': ts.getTypeII}.get(q)
    if f:
        o = call(f)
        if q == 'table' and not isexc(o) and np.size(o) == 0:
            return []
        return o
    o = call(ts.getTwinpairs)
    return o if isexc(o) else [[p.Ui(), p.Uj()] for p in o]


def system(c, ev, ts, U, G, known, r):
    """ask the questions of the history, then the table once more"""
    hd = c['hd'] = {'us': raw([np.array(u) for u in U]), 'g': raw([np.array(m) for m in G]), 'known': known}
    for q in c['log']:
        o = ask(ts, q)
        ev.append({'op': q, 'out': out(o)})
        if isinstance(o, np.ndarray) and o.size and r.random() < .5:
            o[...] = -7                       # the caller's copy
        if isinstance(o, list) and o and q == 'pairs' and r.random() < .5:
            p = must(ts.getTwinpairs)
            del p[:]
    t = must(ts.TwinTable)
    ax = []
    for p in must(ts.getTwinpairs):
        ax.append(must(p.ax))
    t = [[int(x) for x in p] for p in t]
    for e in ev:
        e['tab'] = t
        e['ax'] = [raw(a) for a in ax]
    ev.append({'op': 'table', 'out': out(ask(ts, 'table')), 'tab': t, 'ax': []})
    ev.append({'op': 'axes', 'out': out(True), 'tab': t, 'ax': [raw(a) for a in ax]})
    ev.append({'op': 'Ulist', 'out': out(call(ts.Ulist)), 'tab': t, 'ax': []})


def execute(c, ev):
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP, BravaisLattice
    from structrans.crystallography.matrix_group import HEX_LAUE_GROUP
    from structrans.marttrans import Martensite
    from structrans.marttrans.twin import TwinSystem, TwinPair
    r = random.Random(c['seed'])
    if c['kind'] == 'twin system of the model':
        g = [np.array(m) for m in c['g']]
        r.shuffle(g)
        mg = must(MatrixGroup, g)
        M = must(Martensite, np.array(c['U']), mg)
        if must(M.isreversible):
            system(c, ev, must(TwinSystem, M), must(M.getvariants), g, [], r)
        else:
            U = orbit(g, np.array(c['U']))
            r.shuffle(U)
            system(c, ev, must(TwinSystem, U, mg), U, g, [], r)
    elif c['kind'] == 'martensite':
        M = must(Martensite, np.array(c['U']))
        if c['lid']:
            M = must(M.setLaue, c['lid'])
        G = must(must(M.getLaue).matrices)
        rev = must(M.isreversible)
        U = must(M.getvariants) if rev else orbit(G, np.array(c['U']))
        if not rev or r.random() < .3:
            U = list(U)
            r.shuffle(U)
            ts = must(TwinSystem, U, must(M.getLaue))
        else:
            ts = must(TwinSystem, M)
        system(c, ev, ts, U, G, [], r)
    elif c['kind'] == 'list':
        U, known = [np.array(stretch(r, r.choice([.1, .2])))], []
        for _ in range(r.randint(0, 5)):
            k, i = r.random(), r.randrange(len(U))
            if k < .15:
                U.append(U[i].copy())
            elif k < .55:
                V, e = related(r, U[i])
                if V is not None:
                    known.append([i, len(U), raw(e)])
                    U.append(V)
            elif k < .85:
                V = nearmid(r, U[i])
                U.append(V)
            else:
                U.append(np.array(stretch(r, .2)))
        g = None if r.random() < .4 else groups(r)
        if g is not None and len(U) > 1 and r.random() < .7:
            h = [q for q in must(g.matrices) if abs(np.trace(q) + 1) < 1e-9]
            if h:
                q = r.choice(h)
                U.append(symm(q.dot(U[0]).dot(q.T)))
        arg = U if r.random() < .5 else np.array(U)
        ts = must(TwinSystem, arg) if g is None else must(TwinSystem, arg, g)
        G = must((CUBIC_LAUE_GROUP if g is None else g).matrices)
        system(c, ev, ts, U, G, known, r)
    elif c['kind'] == 'pairs':
        c['hd'] = {'us': [], 'g': [], 'known': []}
        for _ in range(6):
            U = np.array(stretch(r, r.choice([.1, .2, .05])))
            k, e, V = r.random(), [], None
            g = r.choice([None, CUBIC_LAUE_GROUP]) if r.random() < .5 else groups(r)
            if k < .35:
                V, e = related(r, U)
                e = [] if V is None else raw(e)
            elif k < .6:
                h = [q for q in must((g or CUBIC_LAUE_GROUP).matrices) if abs(np.trace(q) + 1) < 1e-9]
                if h:
                    q = r.choice(h)
                    V = symm(q.dot(U).dot(q.T))
            elif k < .7:
                q = r.choice(must((g or CUBIC_LAUE_GROUP).matrices))
                V = symm(q.dot(U).dot(q.T))
            elif k < .9:
                V = nearmid(r, U)
            if V is None:
                V = np.array(stretch(r, .2)) if r.random() < .6 else np.diag(r.sample(list(np.diag(U)), 3)) if r.random() < .5 else U.copy()
            if r.random() < .3:
                U, V = V, U
            G = must((CUBIC_LAUE_GROUP if g is None else g).matrices)
            p = must(TwinPair, U, V)
            base = {'u': raw(U), 'v': raw(V), 'g': raw(G), 'e': e}
            qs = [('twinnable', p.istwinnable), ('isconv', (lambda: p.isconventional()) if g is None else (lambda: p.isconventional(g))),
                  ('ax', p.ax), ('iscomp', p.iscompound)]
            r.shuffle(qs)
            for n, f in qs + [r.choice(qs)]:
                ev.append(dict(base, op=n, out=out(call(f))))
    else:
        c['hd'] = {'us': [], 'g': [], 'known': []}
        U = stretch(r)
        bad = [np.zeros((3, 3)), np.diag([1, 1, -1.]), np.array([[1, .1, 0], [0, 1, 0], [0, 0, 1.]]), np.eye(2), -np.eye(3), np.diag([1., 1, 0]), [[1, 2], [3]]]
        for b in bad[:6]:
            ev.append({'op': 'refused', 'out': out(call(TwinPair, U, b))})
            ev.append({'op': 'refused', 'out': out(call(TwinPair, b, U))})
        for g in (None, [np.eye(3)], 3, 'cubic', np.array([np.eye(3)])):
            ev.append({'op': 'refused', 'out': out(call(TwinSystem, [U], g))})


if __name__ == '__main__':
    import c23
    main(c23)
