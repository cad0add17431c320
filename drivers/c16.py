"""Integer vectors: whole enumerations, resumed ones, and the resume schedules of the model."""
from common import *
from gens import *
import itertools


def rad(r2, d=.5):
    """a radius that no integer vector lies on"""
    return float(np.sqrt(r2 + d))


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for g in gens[:3000 if big else 300]:
        yield {'kind': 'schedule of the model, %dD' % g['n'], 'n': g['n'], 'hist': g['hist'], 'seed': rng.random()}
    for n, rs in ((1, (0, 1, 4, 9, 30)), (2, (0, 1, 3, 8, 13, 25)), (3, (1, 2, 5, 9)), (4, (1, 2, 4, 6)), (5, (1, 3)), (6, (2,)), (8, (2,)), (9, (1, 2) + ((3,) if not big else (3, 4)))):
        for r2 in rs:
            for rep in range(3 if not big else 12):
                yield {'kind': 'resume, %dD' % n, 'n': n, 'r2': r2, 'seed': rng.random()}


def execute(c, ev):
    from structrans.marttrans.lat_cor.main_direct import vec_generator
    r = random.Random(c['seed'])
    n = c['n']

    def lst(r2, x0=None, k=None):
        # anywhere between the length of the vectors inside and the next one
        R = rad(r2, r.choice([.5, .999, .9999, .99, 1e-4, 1e-3, .2, .8]))
        g = vec_generator(R, n, x0) if x0 is not None else vec_generator(R, n)
        return [[int(t) for t in v] for v in (itertools.islice(g, k) if k is not None else g)]
    R2 = c['r2'] if 'r2' in c else c['hist'][0][1]
    ref = must(lst, R2, None, 200000)
    ev.append({'op': 'full', 'n': n, 'r2': R2, 'out': out([]), 'v': raw(ref)})
    if 'hist' in c:
        x0 = None
        for i, (k, r2) in enumerate(c['hist']):
            last = i == len(c['hist']) - 1
            y = call(lst, r2, x0, 200000 if last else k + 1)
            a = {'op': 'resume', 'r2': r2, 'x0': raw(x0 if x0 is not None else [0] * n), 'done': last}
            if isexc(y):
                ev.append(dict(a, v=[], out=out(y)))
                return
            if len(y) < k + 1:
                # nothing left (the model's order may be another one)
                a['done'] = last = True
            ev.append(dict(a, v=raw(y), out=out([])))
            if last:
                break
            x0 = y[k]
            x0 = x0 if r.random() < .5 else np.array(x0)
        return
    starts = [0, 1, len(ref) - 1] + [r.randrange(len(ref)) for _ in range(7)]
    for i in starts:
        if i < 0 or i >= len(ref):
            continue
        r2 = R2 if r.random() < .4 else r.randint(0, R2)
        x0 = list(ref[i])
        x = x0 if r.random() < .4 else np.array(x0)
        y = call(lst, r2, x, 200000)
        if isexc(y):
            ev.append({'op': 'resume', 'r2': r2, 'x0': raw(x0), 'done': True, 'v': [], 'out': out(y)})
        else:
            ev.append({'op': 'resume', 'r2': r2, 'x0': raw(x0), 'done': True, 'v': raw(y), 'out': out([])})


if __name__ == '__main__':
    import c16
    main(c16)
