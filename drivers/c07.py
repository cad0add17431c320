from common import *
from gens import *


def plan(tier, rng, gens):
    big = tier == 'thorough'
    for dim in (2, 3):
        for lid in range(1, len(PLEN[dim]) + 1):
            for rep in range(72 if not big else 600):
                f = special if rep % 3 == 2 else bravais
                lid_, p, d = f(rng, lid, dim)
                w = rng.random()
                nlen = len([x for x in p if True]) if lid not in (5,) else 1
                k = {(3, 5): 1, (3, 12): 3, (3, 13): 3, (3, 14): 3, (2, 5): 2}.get((dim, lid), len(p))
                if w < .2:      # integer parameters
                    p = [rng.randint(1, 30) for _ in p[:k]] + [int(round(x)) for x in p[k:]]
                    if w < .05:
                        p[:k] = [rng.choice([1, 2, 3]) * p[0] for _ in p[:k]]
                elif w < .3:    # other length units
                    s = rng.choice([2. ** -20, 2. ** 10])
                    p = [x * s for x in p[:k]] + list(p[k:])
                elif w < .5:    # very different lengths
                    p = [q(math.exp(rng.uniform(-2.5, 6))) or .25 for x in p[:k]] + list(p[k:])
                elif w < .6:    # full precision
                    p = [x * (1 + rng.random() * 1e-3) for x in p]
                if dim == 3 and lid == 14 and not tri_ok(*p[3:]):
                    continue
                if dim == 3 and lid == 14 and rep % 4 == 1:   # obtuse and very flat corners
                    for _ in range(200):
                        an = [q(rng.uniform(5, 175), 4) for _ in range(3)]
                        if tri_ok(*an, m=.0005):
                            p = list(p[:3]) + an
                            break
                if dim == 3 and lid == 5 and rep % 4 == 1:
                    p = [p[0], q(rng.choice([rng.uniform(5, 118), rng.uniform(2, 12), rng.uniform(105, 119.5), rng.uniform(117, 119.8)]), 4)]
                if dim == 3 and lid in (12, 13) and rep % 4 == 1:
                    p = list(p[:3]) + [q(rng.choice([rng.uniform(10, 170), rng.uniform(1, 15), rng.uniform(165, 179)]), 4)]
                if dim == 2 and lid == 5 and rep % 4 == 1:
                    p = list(p[:2]) + [q(rng.choice([rng.uniform(10, 170), rng.uniform(1, 15), rng.uniform(165, 179)]), 4)]
                yield {'kind': '%dD type %d' % (dim, lid), 'lid': lid, 'p': p, 'dim': dim, 'dep': rng.random() < .3, 'arr': rng.random() < .5}


def execute(c, ev):
    from structrans.crystallography import BravaisLattice
    p = c['p']
    if c['arr']:
        p = np.array(p)
    elif len(p) == 1 and c['dep']:
        p = p[0]
    B = must(BravaisLattice, c['lid'], p, c['dim'])
    conv = B.getConventionalBase if c['dep'] else B.conventional_base
    tr = B.getConventionalTrans if c['dep'] else B.conventional_trans
    ev.append({'op': 'geometry', 'dim': c['dim'], 'id': c['lid'], 'p': raw(c['p']), 'base': out(call(B.base)), 'conv': out(call(conv)), 'trans': out(call(tr))})


if __name__ == '__main__':
    import c07
    main(c07)
