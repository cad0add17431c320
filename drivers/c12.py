"""Histories of setU / setLaue generated by the model; every object is looked at after every call."""
from common import *
from gens import *
from c11 import stretch


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:4000 if big else 400]:
        yield {'kind': 'history', 'hist': g['hist'], 'seed': rng.random()}
    for lid in range(1, 15):
        yield {'kind': 'type %d' % lid, 'hist': [{'op': 'setLaue', 'obj': 1, 'arg': lid}, {'op': 'setU', 'obj': 2, 'arg': 'mat'}, {'op': 'setLaue', 'obj': 3, 'arg': 15 - lid}], 'seed': rng.random()}
    for i in range(NBADU):
        yield {'kind': 'refused stretch', 'hist': [{'op': 'setU', 'obj': 1, 'arg': 'bad:%d' % i}, {'op': 'setU', 'obj': 1, 'arg': 'mat'}, {'op': 'setU', 'obj': 2, 'arg': 'bad:%d' % i}], 'seed': rng.random()}
    for i in range(NBADG):
        yield {'kind': 'refused group', 'hist': [{'op': 'setLaue', 'obj': 1, 'arg': 'badg:%d' % i}], 'seed': rng.random()}
    for rep in range(80 if not big else 800):
        yield {'kind': 'any matrix', 'hist': [{'op': 'setU', 'obj': 1, 'arg': 'any'} for _ in range(5)], 'seed': rng.random()}


A = np.array
BADU = [(), (1, 2, 3, 4, 5), ([1, 2, 3],), (A([1., 2]),), ([[1, 2], [2, 5]],), (A(2.),), ((1., 2., 3.),), (-1.5,), (0,), (1, -2), (-1, 2), (1, 0), (1, 2, 1), (1, 1.5, 3), (1, -2, 1),
        (1, .5, 0), (1, .5, -1), (1, 2, 3, 1), (1, 2, -3, 1), (1, .5, 2, 0), (1, .5, 2, -1), (-1, .5, 2, 1), ('a',), (None,), ({},), (1, 'a'), (1, 2, None, 4), (float('nan'),), (float('inf'),),
        (A([[1., .1, 0], [.2, 1, 0], [0, 0, 1]]),), ([[1, .1, 0], [0, 1, 0], [0, 0, 1]],), (np.diag([1., 1, -1]),), (np.diag([0., 1, 1]),), (-np.eye(3),), (np.diag([-1., -1, 1]),),
        (A([[1., 2, 0], [2, 1, 0], [0, 0, 1]]),), (A([[1., 0, 2], [0, 1, 0], [2, 0, 1]]),), (A([[1., .9, -.9], [.9, 1, .9], [-.9, .9, 1]]),), (np.zeros((3, 3)),), (np.eye(2),), (np.eye(4),), (np.ones((1, 3, 3)) * np.eye(3),),
        (A([[1, 0, 0], [0, 1, 0], [0, 0, np.nan]]),), ([[1, 0, 0], [0, 1, 0], [0, 0, 'x']],), (A([[1., 0, .1], [0, 1, 0], [-.1, 0, 1]]),), (A([[1., 0, 0], [0, 1, .3], [0, .31, 1]]),), (1j,), (2 + 1j,),
        (A([[1., .999999, 0], [.999999, .9, 0], [0, 0, 1]]),)]
NBADU = len(BADU)
BADG = [0, 15, -1, None, 'cubic', 2.0, 14.5, [np.eye(3)], A([np.eye(3)]), (1, 2), {}, 100, -14, float('nan')]
NBADG = len(BADG)


def numbers(r, n):
    while True:
        v = [q(r.uniform(.8, 1.3), 8), q(r.uniform(-.2, .2), 8), q(r.uniform(.8, 1.3), 8), q(r.uniform(.8, 1.3), 8)]
        if r.random() < .3:
            v = [r.randint(2, 6), r.choice([-1, 0, 1]), r.randint(2, 6), r.randint(1, 6)]
        if n == 1:
            return [v[0]]
        if n == 2:
            return [v[0], v[2]]
        if n == 3:
            return [v[0], v[1], v[3]]
        return v


def execute(c, ev):
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP, BravaisLattice
    from structrans.marttrans import Martensite
    r = random.Random(c['seed'])
    objs = [must(Martensite)] if r.random() < .8 else [must(Martensite, None, CUBIC_LAUE_GROUP)]

    def look():
        for i, o in enumerate(objs):
            g = call(o.getLaue)
            ev.append({'op': 'look', 'obj': i + 1, 'u': out(call(o.getU)), 'out': out([np.array(m) for m in call(g.matrices)] if not isexc(g) else g)})
    look()
    for h in c['hist']:
        i, a = h['obj'], h['arg']
        if i > len(objs):
            break
        o = objs[i - 1]
        if h['op'] == 'setU':
            if a in ('n1', 'n2', 'n3', 'n4'):
                args = numbers(r, int(a[1]))
                rec = {'n': len(args), 'x': raw(args)}
            elif a == 'mat' or a == 'any':
                U = A(stretch(r))
                if r.random() < .2:
                    U = A(r.choice([[[2, 0, 0], [0, 3, 1], [0, 1, 4]], [[5, 1, 0], [1, 2, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]]))
                if a == 'any':
                    U = A([[q(r.uniform(-1, 2), 6) for _ in range(3)] for _ in range(3)]) + (np.eye(3) if r.random() < .5 else 0)
                    w = r.random()
                    if w < .8:
                        U = (U + U.T) / 2
                    if w > .95 or w < .3:         # symmetric positive definite up to a small asymmetry in one entry
                        U = A(stretch(r))
                        i_, j_ = r.sample(range(3), 2)
                        U[i_, j_] += q(r.choice([-1, 1]) * 10 ** r.uniform(-4.9, -1), 20)
                    elif w < .5:                  # eigenvalue close to zero
                        R = rotmat(r)
                        U = R.dot(np.diag([r.choice([-1, 1]) * 10 ** r.uniform(-5, -1), q(r.uniform(.5, 2)), q(r.uniform(.5, 2))])).dot(R.T)
                        U = (U + U.T) / 2
                args = [U if r.random() < .6 else U.tolist()]
                rec = {'n': 0, 'x': raw(U)}
            else:
                k = int(a[4:]) if ':' in a else r.randrange(NBADU)
                args = BADU[k]
                rec = {'n': -1, 'x': 0, 'what': repr(args)[:100]}
            y = call(o.setU, *args)
        else:
            if isinstance(a, int) or a == 'type':
                args = a if isinstance(a, int) else r.randint(1, 14)
                rec = {'n': 1, 'x': args}
            elif a == 'group':
                G = r.choice([CUBIC_LAUE_GROUP, must(must(BravaisLattice, *bravais(r, r.randint(1, 14))).Laue_group), must(MatrixGroup, [rotmat(r).dot(np.diag([1., -1, -1])), np.eye(3)])])
                args = G
                rec = {'n': 0, 'x': raw([np.array(m) for m in must(G.matrices)])}
            else:
                args = BADG[int(a[5:]) if ':' in a else r.randrange(NBADG)]
                rec = {'n': -1, 'x': 0, 'what': repr(args)[:100]}
            y = call(o.setLaue, args)
        new = not isexc(y) and isinstance(y, Martensite) and all(y is not z for z in objs)
        ev.append(dict(rec, op=h['op'], obj=i, out=out(y) if isexc(y) else {'t': 'str', 'v': 'new' if new else 'not a new object'}))
        if not isexc(y):
            objs.append(y)
        look()


if __name__ == '__main__':
    import c12
    main(c12)
