from common import *
from gens import *
import re


def plan(tier, rng, gens):
    big = tier == 'thorough'
    by = {}
    for g in gens:
        by.setdefault((g['dim'], g['id']), []).append(g)
    T = [3, 4, 5, 80, 85, 95, 70]
    for k in sorted(by):
        cs = []
        for g in by[k]:
            p = [float(x) for x in T[:g['len']]]
            if g['id'] == 5 and g['dim'] == 3 and len(p) == 2:
                p[1] = 80.
            if g['id'] in (12, 13) and len(p) == 4:
                p[3] = 85.
            if g['id'] == 5 and g['dim'] == 2 and len(p) == 3:
                p[2] = 75.
            if g['neg']:
                p[g['neg'] - 1] = float(g['sub'])
            cs.append((g['dim'], g['id'], p))
        yield {'kind': 'spec inputs', 'cs': cs}
    for i in range(12 if not big else 150):
        cs = []
        for dim in (2, 3):
            for lid in range(1, len(PLEN[dim]) + 1):
                l, p, d = (special if i % 3 == 2 else bravais)(rng, lid, dim)
                cs.append((d, l, p))
                if rng.random() < .3:
                    cs.append((d, l, [x * (1 + rng.random() * 1e-2) for x in p[:1]] + list(p[1:])))
        yield {'kind': 'valid', 'cs': cs}
    for i in range(6 if not big else 60):
        cs = []
        for _ in range(20):   # angles that do not describe a cell, or hardly
            an = [q(rng.uniform(5, 175), 3) for _ in range(3)]
            cs.append((3, 14, [2., 3., 4.] + an))
            cs.append((3, 5, [2.5, q(rng.uniform(3, 175), 3)]))
            cs.append((3, rng.choice([12, 13]), [2., 3., 4., q(rng.uniform(1, 179), 3)]))
            cs.append((2, 5, [2., 3., q(rng.uniform(1, 179), 3)]))
        cs += [(3, 14, [2., 3., 4., 30., 40., 100.]), (3, 5, [2., 121.]), (3, 5, [2., 150.]), (3, 14, [1., 1., 1., 119., 120.5, 130.])]
        yield {'kind': 'angles', 'cs': cs}
    yield {'kind': 'malformed'}
    for i in range(5):
        yield {'kind': 'one call', 'cs': [(d,) + bravais(rng, None, d)[:2] for d in (2, 3, 3)]}


def parse(s):
    m = re.match(r'^\s*(\d)D Bravais Lattice - (.*?):\s*(.*)$', s, re.S)
    if not m:
        return {'dim': 0, 'type': s[:100], 'names': [], 'vals': []}
    kv = re.findall(r'([A-Za-z]+)\s*=\s*([-+0-9.eE]+|nan|inf)', m.group(3))
    try:
        vals = [raw(float(v)) for _, v in kv]
    except Exception:
        vals = []
    order = {'a': 0, 'b': 1, 'c': 2, 'alpha': 3, 'beta': 4, 'gamma': 5}
    z = sorted(zip([k for k, _ in kv], vals), key=lambda t: order.get(t[0], 9))
    return {'dim': int(m.group(1)), 'type': m.group(2), 'names': [k for k, _ in z], 'vals': [v for _, v in z]}


def execute(c, ev):
    from structrans.crystallography import BravaisLattice
    if c['kind'] == 'malformed':
        nan, inf = float('nan'), float('inf')
        bad = [(1, [nan], 3), (1, [inf], 3), (1, 'x', 3), (1, None, 3), (1, [[2.]], 3), (1, ['a'], 3), (1, [], 3), (8, [2, 3, nan], 3), (8, [2, inf, 3], 3),
               (14, [2, 3, 4, nan, 90, 90], 3), (0, [2], 3), (15, [2], 3), (-1, [2], 3), (2.5, [2], 3), ('x', [2], 3), (None, [2], 3), (6, [2], 3), (6, [2, 3, 4], 3),
               (1, [2], 1), (1, [2], 4), (1, [2], 0), (1, [2], 2.5), (1, [2], None), (6, [2], 2), (0, [2], 2), (5, [2, 3], 2), (2, [2, nan], 2), (4, [-1], 2),
               (4, -1., 2), (1, -2., 3), (1, 0, 3), (1, 0., 3), (1, [0], 2), (6, [[1, 2], [3, 4]], 3), (1, {}, 3)]
        for lid, p, d in bad:
            ev.append({'op': 'malformed', 'what': repr((lid, p, d)), 'out': out(call(BravaisLattice, lid, p, d))})
        return
    for x in c['cs']:
        dim, lid, p = x
        how = len(ev) % 3
        P = p if how == 0 else np.array(p) if how == 1 else (p[0] if len(p) == 1 else p)
        B = call(BravaisLattice, lid, P, dim) if dim != 3 or how else call(BravaisLattice, lid, P)
        e = {'op': 'new', 'dim': dim, 'id': lid, 'p': raw(p), 'out': out(B) if isexc(B) else {'t': 'ok', 'v': 0}}
        if not isexc(B):
            s = call(str, B)
            e.update(gotid=out(call(B.Bravais_id)), gotid2=out(call(B.getLatID)), gotdim=out(call(B.dimension)), gotp=out(call(B.lat_param)), gotp2=out(call(B.getLatParam)),
                     desc=parse(s if isinstance(s, str) else 'exception'))
        ev.append(e)


if __name__ == '__main__':
    import c08
    main(c08)
