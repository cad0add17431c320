"""Unit cells through the model's histories on every Bravais type; stereographic projections."""
from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    cells = [g for g in gens if 'log' in g]
    sph = [g for g in gens if 'z' in g]
    rng.shuffle(cells)
    rng.shuffle(sph)
    lid = {2: 0, 3: 0}
    for g in cells[:300 if not big else 4000]:
        lid[g['n']] += 1
        yield {'kind': 'unit cell', 'n': g['n'], 'lid': lid[g['n']] % (5 if g['n'] == 2 else 14) + 1, 'log': g['log'], 'seed': rng.random()}
    for i in range(0, len(sph), 12):
        yield {'kind': 'exact directions', 'pz': [(g['p'], g['z']) for g in sph[i:i + 12]], 'seed': rng.random()}
    for rep in range(60 if not big else 1500):
        yield {'kind': 'directions', 'seed': rng.random()}
    for rep in range(40 if not big else 600):
        yield {'kind': 'vertex', 'seed': rng.random()}


def direction(r, z=None):
    k = r.random()
    if k < .35:
        while True:
            p = np.array([r.randint(-3, 3) for _ in range(3)])
            if p.any():
                return p if r.random() < .5 else p * 1.
    if k < .7 or z is None:
        while True:
            p = np.array([r.gauss(0, 1) for _ in range(3)]) * r.choice([.1, 1, 1, 30])
            if np.linalg.norm(p) > .02:
                return p
    zh = np.array(z) / np.linalg.norm(z)
    x = np.cross(zh, [r.gauss(0, 1) for _ in range(3)])
    x = x / np.linalg.norm(x)
    t = r.choice([0, np.pi, np.pi / 2, .02, .2, 1.5, 1.6, np.pi - .02, 1, 2, 3, 1e-3, np.pi - 1e-3, 1e-4, 3e-3, np.pi / 2 - 1e-4])
    # the length of a direction does not matter, short ones are not null
    return r.choice([1, 2.5, 1e-3, 1e-4, 1e4]) * (np.cos(t) * zh + np.sin(t) * x)


def execute(c, ev):
    from structrans.crystallography import BravaisLattice
    from structrans.crystallography.visualization import UnitCell, vertex, bonds
    from structrans.crystallography.stereogram import stereo_proj, pole_figure
    r = random.Random(c['seed'])
    if c['kind'] == 'unit cell':
        n = c['n']
        b = bravais(r, c['lid'], n)
        L = must(BravaisLattice, b[0], b[1], n)
        P = np.array(must(L.base)).T
        C = np.array(must(L.conventional_base)).T
        u = must(UnitCell, [0] * n if r.random() < .5 else np.zeros(n), b[0], b[1], n)
        s = r.choice([1, 1.5, -2.25])
        o = np.zeros(n)
        def add(name, vs, res):
            ev.append({'op': name, 'n': n, 'vs': raw(vs), 'o': raw(o), 'out': out(res)})
        for h in c['log']:
            k = h['op']
            if k == 'move':
                o = s * np.array(h['to'])
                must(u.setOrigin, o.copy() if r.random() < .7 else o.tolist())
            elif k == 'primitive':
                add('corners', P, call(u.getPrimitive))
            elif k == 'conventional':
                add('corners', C, call(u.getConventionalVex))
            elif k == 'primitive bonds':
                add('bonds', P, call(u.getPrimitivebonds))
            elif k == 'conventional bonds':
                add('bonds', C, call(u.getConventionalbonds))
            else:
                t = np.array([q(r.uniform(-3, 3), 6) for _ in range(n)])
                v = must(u.getPrimitive)
                w = call(u.copyTo, t, v)
                ev.append({'op': 'corners', 'n': n, 'vs': raw(P), 'o': raw(o + t), 'out': out(w)})
                if not isexc(w):
                    ev.append({'op': 'bonds', 'n': n, 'vs': raw(P), 'o': raw(o + t), 'out': out(call(u.bonds if r.random() < .5 else bonds, w))})
        add('corners', C, call(u.getConventionalVex))
        add('bonds', P, call(u.getPrimitivebonds))
    elif c['kind'] == 'vertex':
        for _ in range(3):
            n = r.choice([2, 3])
            E = np.array([[q(r.uniform(-2, 2), 6) for _ in range(n)] for _ in range(n)])
            while abs(np.linalg.det(E)) < .1:
                E = np.array([[q(r.uniform(-2, 2), 6) for _ in range(n)] for _ in range(n)])
            o = np.array([q(r.uniform(-2, 2), 6) for _ in range(n)])
            v = call(vertex, o, E) if n == 3 and r.random() < .5 else call(vertex, o, E, n)
            ev.append({'op': 'corners', 'n': n, 'vs': raw(E), 'o': raw(o), 'out': out(v)})
            if not isexc(v):
                ev.append({'op': 'bonds', 'n': n, 'vs': raw(E), 'o': raw(o), 'out': out(call(bonds, v))})
    else:
        pz = [(np.array(p), np.array(z)) for p, z in c['pz']] if 'pz' in c else []
        if not pz:
            z = direction(r)
            pz = [(direction(r, z), z) for _ in range(8)]
        for p, z in pz:
            p0, z0 = p.copy(), z.copy()
            o = call(stereo_proj, p, z)
            ev.append({'op': 'project', 'p': raw(p0), 'z': raw(z0), 'same': bool(np.array_equal(p, p0) and np.array_equal(z, z0)), 'out': out(o)})
        z = pz[0][1]
        ps = [p for p, _ in pz]
        arg = ps if r.random() < .5 else np.array(ps)
        ev.append({'op': 'poles', 'ps': raw([np.array(p) for p in ps]), 'z': raw(z), 'out': out(call(pole_figure, arg, z))})
        ev.append({'op': 'poles', 'ps': raw([ps[0]]), 'z': raw(z), 'out': out(call(pole_figure, ps[0], z))})
        bad = r.choice([[[1, 2]], [1, 2], [[[1, 0, 0]]], [1, 2, 3, 4]])
        ev.append({'op': 'bad poles', 'out': out(call(pole_figure, bad, z))})


if __name__ == '__main__':
    import c28
    main(c28)
