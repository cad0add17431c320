from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    for rep in range(4 if not big else 30):
        for dim in (2, 3):
            for lid in range(1, len(PLEN[dim]) + 1):
                for how in ('standard', 'special', 'unimodular', 'rotated', 'table symmetry'):
                    yield {'kind': how, 'lid': lid, 'dim': dim, 'seed': rng.random(), 'dep': rng.random() < .3, 'order': rng.randrange(24)}
    for i in range(60 if not big else 600):
        yield {'kind': 'random', 'dim': rng.choice([2, 3]), 'seed': rng.random(), 'dep': False, 'order': rng.randrange(24)}
    for i in range(60 if not big else 600):
        yield {'kind': 'integer', 'dim': rng.choice([2, 3]), 'seed': rng.random(), 'dep': False, 'order': rng.randrange(24)}
    for i in range(40 if not big else 400):
        dim = rng.choice([2, 3, 3])
        yield {'kind': 'nearly the same lattices', 'lid': rng.randint(1, len(PLEN[dim])), 'dim': dim, 'seed': rng.random(), 'dep': rng.random() < .3, 'order': rng.randrange(24)}
    for n in (1, 4, 5, 6):
        yield {'kind': 'other dimension', 'dim': n, 'seed': rng.random(), 'dep': False, 'order': 0}


NAMES4 = ['Laue_group', 'point_group', 'special_lattice_group', 'lattice_group']
DEP4 = ['getLauegroup', 'getpointgroup', 'getspeciallatticegroup', 'getlatticegroup']


def build(c):
    """a lattice object and its base"""
    from structrans.crystallography import Lattice, BravaisLattice
    from structrans.crystallography import matrix_group as mg
    r = random.Random(c['seed'])
    k = c['kind']
    if k == 'random':
        return must(Lattice, basis(r, c['dim']))
    if k == 'integer':
        return must(Lattice, intbasis(r, c['dim'], 2))
    if k == 'other dimension':
        return must(Lattice, basis(r, c['dim']))
    lid, p, d = (special if k == 'special' else bravais)(r, c['lid'], c['dim'])
    B = must(BravaisLattice, lid, p, d)
    if k in ('standard', 'special'):
        return B
    E = must(B.base)
    if k == 'unimodular':
        return must(Lattice, E.dot(unimodular(r, d, 3)))
    if k == 'rotated':
        return must(Lattice, (rotmat(r, d) if r.random() < .5 or d == 2 else exact_rot(r)).dot(E))
    # turned by an element of the cubic or hexagonal (square) table: symmetry axes stay on table axes
    G = r.choice([mg.CUBIC_LAUE_GROUP, mg.HEX_LAUE_GROUP]) if d == 3 else r.choice([mg.SQUARE_EXT_GROUP, mg.HEX2D_EXT_GROUP])
    ms = must(G.matrices)
    return must(Lattice, np.array(ms[r.randrange(len(ms))]).dot(E).dot(unimodular(r, d, 2)))


def execute(c, ev):
    from structrans.crystallography import BravaisLattice
    if c['kind'] == 'nearly the same lattices':
        from structrans.crystallography import Lattice
        r = random.Random(c['seed'])
        lid, p, d = special(r, c['lid'], c['dim'])
        E = must(must(BravaisLattice, lid, p, d).base)
        for t in r.sample([0, 5e-6, 1e-5, 2e-5, 5e-5, 1e-3, 2e-3, 4e-3, 1e-2], 5):
            F = np.eye(d)
            F[r.randrange(d), r.randrange(d)] += t
            groups(must(Lattice, F.dot(E)), c, ev, t)
        return
    L = build(c)
    if c['kind'] == 'other dimension':
        for nm in NAMES4 + DEP4:
            ev.append({'op': 'refuse', 'what': nm, 'out': out(call(getattr(L, nm)))})
        return
    groups(L, c, ev)


def groups(L, c, ev, off=0):
    import itertools
    names = DEP4 if c['dep'] else NAMES4
    got, order = {}, {}
    for i in list(itertools.permutations(range(4)))[c['order']]:
        g = must(getattr(L, names[i]))
        got[i] = np.array(must(g.matrices))
        order[i] = int(must(g.order))
    ev.append({'op': 'groups', 'near': 0 < off < 1e-4, 'e': raw(must(L.base)), 'laue': out(got[0]), 'point': out(got[1]), 'spec': out(got[2]), 'lat': out(got[3]),
               'orders': [order[i] for i in range(4)]})


if __name__ == '__main__':
    import c04
    main(c04)
