"""Volume fractions and habit planes of twins of every class found by the model, and of free twins."""
from common import *
from gens import *
from c11 import stretch
from c23 import related, nearmid, symm, halfturn, orbit

TY = ['I', 'II', 'C']
QS = ['volumefrac', 'iscompatible', 'habitplanes']


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    by = {}
    for g in gens:
        by.setdefault(tuple(g['cls']), []).append(g)
    for c in sorted(by):
        for g in by[c][:30 if not big else 1500]:
            yield {'kind': 'class %s/%s' % c, 'u': (np.array(g['u']) * 10. / g['s']).tolist(), 'e': g['e'], 'log': g['log'] + [rng.choice(QS) for _ in range(2)], 'seed': rng.random()}
    for rep in range(160 if not big else 3000):
        yield {'kind': 'free twin', 'log': [rng.choice(QS) for _ in range(3)], 'w': rng.choice([.04, .08, .15, .3]), 'seed': rng.random()}
    for rep in range(60 if not big else 1000):
        yield {'kind': 'middle eigenvalue 1', 'log': [rng.choice(QS) for _ in range(3)], 'seed': rng.random()}
    for rep in range(40 if not big else 600):
        yield {'kind': 'variants', 'log': [rng.choice(QS) for _ in range(2)], 'U': stretch(rng, rng.choice([.06, .1, .2])), 'seed': rng.random()}
    for rep in range(40 if not big else 600):
        yield {'kind': 'cofactor conditions', 'log': ['volumefrac', 'iscompatible', 'habitplanes'], 'seed': rng.random()}
        yield {'kind': 'fraction near an end', 'log': ['volumefrac', rng.choice(QS), 'habitplanes'], 'seed': rng.random()}
        yield {'kind': 'within the tolerance', 'log': [rng.choice(QS) for _ in range(2)], 'seed': rng.random()}


def questions(ev, p, U, V, rel, log, r):
    tp = must(p.twinparam)
    base = {'u': raw(U), 'v': raw(V), 'rel': bool(rel), 'tp': [[raw(x) for x in s[1:]] for s in tp]}
    fs = None
    for q in log:
        if q == 'volumefrac':
            o = call(p.volumefrac)
            ev.append(dict(base, op=q, ty='C', fs=[], out=out(list(o) if isinstance(o, tuple) else o) if isexc(o) else {'t': 'list', 'v': [out(x) for x in o]}))
        else:
            fs = call(p.volumefrac)
            f = [] if isexc(fs) else [out(x) for x in fs]
            for t in r.sample(TY, 2):
                ev.append(dict(base, op=q, ty=t, fs=f, out=out(call(getattr(p, q), t))))
            if r.random() < .4:
                ev.append(dict(base, op=q, ty='C', fs=f, out=out(call(getattr(p, q)))))
    if r.random() < .1:
        for q in ('iscompatible', 'habitplanes'):
            ev.append(dict(base, op='bad type', ty='C', fs=[], out=out(call(getattr(p, q), r.choice(['III', 'i', '', 'compound', None, 1])))))


def execute(c, ev):
    from structrans.crystallography import CUBIC_LAUE_GROUP
    from structrans.crystallography.matrix_group import HEX_LAUE_GROUP
    from structrans.marttrans.twin import TwinSystem, TwinPair
    r = random.Random(c['seed'])
    if 'e' in c:
        U = np.array(c['u'])
        R = halfturn(c['e'])
        V = symm(R.dot(U).dot(R))
        questions(ev, must(TwinPair, U, V), U, V, True, c['log'], r)
    elif c['kind'] in ('free twin', 'middle eigenvalue 1'):
        if c['kind'] == 'free twin':
            U = np.array(stretch(r, c['w']))
            if np.linalg.eigvalsh(U)[0] < .2:
                U = np.array(stretch(r, .1))
            if r.random() < .5:
                U = U / np.linalg.det(U) ** (1 / 3.) * (1 + r.uniform(-.02, .02))
        else:
            R = exact_rot(r) if r.random() < .5 else rotmat(r)
            a, b = r.uniform(.03, .2), r.uniform(.03, .2)
            U = R.dot(np.diag(r.sample([1 - a, 1 + r.choice([0, 0, 1e-3, -1e-3, 1e-2]), 1 + b], 3))).dot(R.T)
        R = rotmat(r)
        U = symm(R.dot(U).dot(R.T)) if r.random() < .5 else symm(U)
        V, e = related(r, U)
        if V is not None:
            questions(ev, must(TwinPair, U, V), U, V, True, c['log'], r)
    elif c['kind'] == 'cofactor conditions':
        l1, l3 = 1 - r.uniform(.02, .25), 1 + r.uniform(.02, .25)
        if r.random() < .5:
            x = [np.sqrt(1 - 1 / l3**2), 0, np.sqrt(1 / l1**2 - 1)]
        else:
            x = [np.sqrt(l3**2 - 1), 0, np.sqrt(1 - l1**2)]
        x[1] = r.choice([-1, 1]) * r.uniform(.1, 1) * np.hypot(x[0], x[2])
        x[0] *= r.choice([-1, 1])
        R = exact_rot(r) if r.random() < .3 else rotmat(r)
        U = symm(R.dot(np.diag([l1, 1, l3])).dot(R.T))
        e = R.dot(np.array(x) / np.linalg.norm(x))
        H = 2 * np.outer(e, e) - np.eye(3)
        V = symm(H.dot(U).dot(H))
        questions(ev, must(TwinPair, U, V), U, V, True, c['log'], r)
    elif c['kind'] == 'fraction near an end':
        R = rotmat(r)
        U = symm(R.dot(np.diag([1 - r.uniform(.03, .1), 1 + 10 ** r.uniform(-4.5, -2.5) * r.choice([-1, 1]), 1 + r.uniform(.03, .1)])).dot(R.T))
        V, e = related(r, U)
        if V is not None:
            questions(ev, must(TwinPair, U, V), U, V, True, c['log'], r)
    elif c['kind'] == 'variants':
        g = r.choice([CUBIC_LAUE_GROUP, CUBIC_LAUE_GROUP, HEX_LAUE_GROUP])
        Us = orbit(must(g.matrices), np.array(c['U']))
        r.shuffle(Us)
        tps = must(must(TwinSystem, Us, g).getTwinpairs)
        for p in r.sample(tps, min(3, len(tps))):
            U, V = must(p.Ui), must(p.Uj)
            rel = any(abs(np.trace(q) + 1) < 1e-9 and np.abs(q.dot(U).dot(q.T) - V).max() < 1e-12 for q in must(g.matrices))
            questions(ev, p, U, V, rel, c['log'], r)
    else:
        U = np.array(stretch(r, .1))
        V = nearmid(r, U)
        p = must(TwinPair, U, V)
        if must(p.istwinnable):
            questions(ev, p, U, V, False, c['log'], r)
        else:
            b = {'u': raw(U), 'v': raw(V), 'rel': False, 'tp': [], 'fs': [], 'ty': 'C'}
            for q in QS:
                ev.append(dict(b, op='untwinnable', out=out(call(getattr(p, q)))))


if __name__ == '__main__':
    import c25
    main(c25)
