"""Histories of queries on real objects; outside arrays are overwritten in between."""
from common import *
from gens import *
from copy import deepcopy

# objects: constructor arguments (pristine) per class, a few variants each
Q90 = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])


HOLD = False        # the histories write to the answers themselves


def U3(a, b, c, d=0., e=0., f=0.):
    return np.array([[a, d, e], [d, b, f], [e, f, c]])


R3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def objs():
    o = {}
    o['lattice'] = [lambda: [np.array([[2., 0, 0], [0, 2, 0], [0, 0, 3]])], lambda: [np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]])],
                    lambda: [np.array([[1., .5], [0, np.sqrt(3) / 2]])], lambda: [np.array([[2, 0], [0, 3]])],
                    lambda: [np.array([[2., 0, 0], [0, 2.5, 0], [.5, 0, 3]])]]
    o['bravais'] = [lambda: [2, np.array([3.5])], lambda: [4, np.array([2., 3.25])], lambda: [14, np.array([2., 2.5, 3.25, 80, 85, 95])],
                    lambda: [13, np.array([2., 2.5, 3.25, 95])], lambda: [3, np.array([2., 3.5]), 2], lambda: [5, np.array([2., 3.5, 70]), 2],
                    lambda: [7, np.array([2, 3])]]
    o['group'] = [lambda: [np.array([np.eye(3), Q90, Q90.dot(Q90), Q90.T])], lambda: [[np.eye(2), -np.eye(2)]],
                  lambda: [[[[1, 0], [0, 1]], [[0, 1], [1, 0]]]]]
    o['martensite'] = [lambda: [U3(1.05, 1.05, .92)], lambda: [U3(1.1, 1.02, .9, .04)], lambda: [U3(.95, .95, 1.08), 4], lambda: [U3(1.06, 1.06, .9, .05)]]
    o['twinpair'] = [lambda: [U3(1.05, .92, 1.05), U3(1.05, 1.05, .92)], lambda: [U3(1.1, 1.02, .93, .03), U3(1.02, 1.1, .93, .03)],
                     lambda: [U3(1.0243, 1.0243, .9563, .058), U3(1.0243, .9563, 1.0243, 0, .058)],
                     lambda: [U3(1.0, 1.1, .9), U3(1.0, .9, 1.1)], lambda: [U3(1.1, 1.2, 1.3), U3(1.25, 1.35, 1.5)]]
    o['twinsystem'] = [lambda: [[U3(1.05, 1.05, .92), U3(1.05, .92, 1.05), U3(.92, 1.05, 1.05)]], lambda: ['M', U3(1.06, 1.06, .9, .05)],
                       lambda: [[U3(1.1, 1.02, .93), U3(1.02, 1.1, .93), U3(.93, 1.1, 1.02)], 6],
                       lambda: [np.array([U3(1.1, 1.02, .93), U3(1.02, 1.1, .93), U3(.93, 1.1, 1.02)]), 6],
                       lambda: [np.array([U3(1.05, 1.05, .92), U3(1.05, .92, 1.05), U3(.92, 1.05, 1.05)])],
                       lambda: [np.array([U3(1.05, 1.05, .92), U3(1.05, .92, 1.05)]), 7]]
    return o


def make(cls, args):
    from structrans.crystallography import Lattice, BravaisLattice, MatrixGroup
    from structrans.marttrans import Martensite
    from structrans.marttrans.twin import TwinPair, TwinSystem
    if cls == 'lattice':
        return Lattice(*args)
    if cls == 'bravais':
        return BravaisLattice(*args)
    if cls == 'group':
        return MatrixGroup(*args)
    if cls == 'martensite':
        return Martensite(*args) if len(args) == 1 else Martensite(args[0]).setLaue(args[1])
    if cls == 'twinpair':
        return TwinPair(*args)
    if isinstance(args[0], str):
        return TwinSystem(Martensite(args[1]))
    if len(args) == 2:
        return TwinSystem(args[0], BravaisLattice(args[1], [2., 3.]).Laue_group())
    return TwinSystem(*args)


def grp(o):
    return o.Laue_group()


def queries(cls):
    from structrans.crystallography import Lattice, BravaisLattice, MatrixGroup, CUBIC_LAUE_GROUP
    lat = [('base', lambda o: o.base()), ('getbase', lambda o: o.getbase()), ('dimension', lambda o: o.dimension()),
           ('Laue_group', lambda o: o.Laue_group()), ('point_group', lambda o: o.point_group()),
           ('special_lattice_group', lambda o: o.special_lattice_group()), ('lattice_group', lambda o: o.lattice_group()),
           ('inpointgroup', lambda o: [o.inpointgroup(Q90[:o.dimension(), :o.dimension()]), o.inpointgroup(-np.eye(o.dimension()))]),
           ('inlatticegroup', lambda o: [o.inlatticegroup(np.array(Q90[:o.dimension(), :o.dimension()], dtype=int)), o.inlatticegroup(np.eye(o.dimension()))]),
           ('eq', lambda o: [o == Lattice(2 * np.eye(o.dimension())), o == Lattice(o.base()), o == Lattice(2 * o.base())]),
           ('str', lambda o: str(o))]
    if cls == 'lattice':
        return lat
    if cls == 'bravais':
        return lat + [('Bravais_id', lambda o: o.Bravais_id()), ('lat_param', lambda o: o.lat_param()), ('conventional_trans', lambda o: o.conventional_trans()),
                      ('conventional_base', lambda o: o.conventional_base()),
                      ('to_primitive_Miller', lambda o: o.to_primitive_Miller(list(range(1, 1 + o.dimension())))),
                      ('to_conventional_Miller', lambda o: o.to_conventional_Miller([list(range(1, 1 + o.dimension()))] * 2)),
                      ('getLatParam', lambda o: o.getLatParam())]
    if cls == 'group':
        return [('matrices', lambda o: o.matrices()), ('order', lambda o: o.order()),
                ('hassubgroup', lambda o: [o.hassubgroup(MatrixGroup([np.eye(len(o.matrices()[0]))])), o.hassubgroup(CUBIC_LAUE_GROUP)]),
                ('self subgroup', lambda o: o.hassubgroup(o))]
    if cls == 'martensite':
        return [('getU', lambda o: o.getU()), ('getLaue', lambda o: o.getLaue()), ('getvariants', lambda o: o.getvariants()), ('getvariant', lambda o: o.getvariant(2)),
                ('isreversible', lambda o: o.isreversible()), ('getLaueidx', lambda o: o.getLaueidx()),
                ('setU', lambda o: [o.setU(1.1, 1.2).getU(), o.setU(1.1, 1.2).getLaue()]), ('setLaue', lambda o: [o.setLaue(6).getU(), o.setLaue(6).getLaue(), o.setLaue(1).getvariants()]),
                ('getvariant 1', lambda o: o.getvariant(1))]
    if cls == 'twinpair':
        return [('Ui', lambda o: o.Ui()), ('Uj', lambda o: o.Uj()), ('istwinnable', lambda o: o.istwinnable()), ('isconventional', lambda o: o.isconventional()),
                ('isconventional in monoclinic', lambda o: o.isconventional(BravaisLattice(12, [1., 2., 3., 80.]).Laue_group())), ('ax', lambda o: o.ax()),
                ('iscompound', lambda o: o.iscompound()), ('istypeI', lambda o: o.istypeI()), ('istypeII', lambda o: o.istypeII()), ('XI', lambda o: o.XI()), ('XII', lambda o: o.XII()),
                ('direct_cof', lambda o: list(o.direct_cof())), ('twinparam', lambda o: o.twinparam()), ('iscompatible', lambda o: o.iscompatible()),
                ('iscompatible I', lambda o: o.iscompatible('I')), ('iscompatible II', lambda o: o.iscompatible('II')), ('volumefrac', lambda o: o.volumefrac()),
                ('habitplanes', lambda o: o.habitplanes()), ('habitplanes II', lambda o: o.habitplanes('II'))]
    return [('Ulist', lambda o: o.Ulist()), ('Laue', lambda o: o.Laue()), ('TwinTable', lambda o: o.TwinTable()), ('getTwinpairs', lambda o: o.getTwinpairs()),
            ('getConventional', lambda o: o.getConventional()), ('getCompound', lambda o: o.getCompound()), ('getTypeI', lambda o: o.getTypeI()), ('getTypeII', lambda o: o.getTypeII())]


def plain(x):
    """objects in answers, by what they hold"""
    if hasattr(x, 'matrices') and hasattr(x, 'order'):
        return [np.array(m) for m in x.matrices()]
    if hasattr(x, 'Ui') and hasattr(x, 'Uj'):
        return [x.Ui(), x.Uj(), x.istwinnable()]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [plain(y) for y in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def spoil(x):
    """overwrite everything the caller can reach"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel().tolist():
                spoil(y)
        try:
            if x.dtype == object:
                x[...] = 0
            elif x.dtype.kind == 'b':
                x[...] = ~x
            else:
                x[...] = x * 3 + 17
        except ValueError:
            pass            # read-only answers are fine
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        del x[1:]
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x.clear()
    elif hasattr(x, 'matrices') and hasattr(x, 'order'):
        spoil(x.matrices())
    elif hasattr(x, 'Ui') and hasattr(x, 'Uj'):
        spoil(x.Ui())
        spoil(x.Uj())
        spoil(x.ax())
        spoil(x.twinparam())


def reach(args):
    """the arrays inside the constructor arguments"""
    for a in args:
        if isinstance(a, np.ndarray):
            spoil(a)
        elif isinstance(a, list):
            for b in a:
                if isinstance(b, np.ndarray):
                    spoil(b)
                elif isinstance(b, list):
                    for cc in b:
                        spoil(cc)
            del a[:]


def plan(tier, rng, gens):
    big = tier == 'thorough'
    n = {k: len(v) for k, v in objs().items()}
    for i, g in enumerate(gens):
        for k in (range(n[g['class']]) if big else [i % n[g['class']]]):
            yield {'kind': g['class'], 'hist': g['hist'], 'obj': k}
    nq = {'lattice': 11, 'bravais': 18, 'group': 4, 'martensite': 9, 'twinpair': 19, 'twinsystem': 8}
    for i in range(150 if not big else 3000):
        c = rng.choice(sorted(nq))
        h = []
        for _ in range(rng.randint(4, 10)):
            w = rng.random()
            h.append(['query', str(rng.randrange(nq[c]))] if w < .6 or not h else ['spoil', rng.choice(['answer', 'argument'])])
        h.append(['query', str(rng.randrange(nq[c]))])
        yield {'kind': c + ' (long)', 'hist': h, 'obj': rng.randrange(n[c])}


REF = {}


def refs():
    """answers of fresh objects, before anything is spoilt in this process"""
    for cls, os_ in objs().items():
        qs = queries(cls)
        for k, mk in enumerate(os_):
            for i, (nm, f) in enumerate(qs):
                def one():
                    return plain(f(make(cls, mk())))
                REF[cls, k, i] = out(call(one))


def execute(c, ev):
    if not REF:
        refs()
    cls = c['kind'].split()[0]
    args = objs()[cls][c['obj']]()
    o = must(make, cls, args)
    qs = queries(cls)
    last = None
    for what, arg in c['hist']:
        if what == 'query':
            i = int(arg)
            nm, f = qs[i]
            last = call(f, o)
            res = last if isexc(last) else call(lambda: plain(last))
            ev.append({'op': 'query', 'q': nm, 'out': out(res), 'fresh': REF[cls, c['obj'], i]})
        elif arg == 'argument':
            reach(args)
            ev.append({'op': 'spoil', 'what': 'argument'})
        else:
            if not isexc(last):
                call(spoil, last)
            ev.append({'op': 'spoil', 'what': 'answer'})


if __name__ == '__main__':
    import c06
    main(c06)
