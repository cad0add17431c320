"""Sublattice searches under the schedules of the model and random ones, with the optimisation of a
sublattice replaced by a table of candidates, and serially / in parallel with the real one."""
from common import *
from gens import *
from c17 import bases
from c19 import allhnf


def related(h, k, G):
    ki = np.linalg.inv(k)
    return any(np.abs(x - np.rint(x)).max() < 1e-6 for x in (ki.dot(m).dot(h) for m in G))


def special_group(E):
    Ei = np.linalg.inv(E)
    return [np.rint(Ei.dot(q).dot(E)).astype(int) for q in isometries(E) if np.linalg.det(q) > 0]


def norbits(sizes, E):
    G = special_group(E)
    R = []
    for n in sizes:
        for h in allhnf(n, len(E)):
            h = np.array(h)
            if not any(abs(np.linalg.det(h) - np.linalg.det(k)) < .5 and related(h, k, G) for k in R):
                R.append(h)
    return len(R)


# (parent type, volume ratio, threshold) with a given number of sublattices, in two dimensions
def pairfor(rng, ntask):
    while True:
        lid = rng.choice([1, 2, 3, 4])
        a = bravais(rng, lid, 2)
        r = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        v = rng.choice([.1, .1, .3, .6, 1.0])
        m = bravais(rng, 5, 2)
        E = np.array(must(lambda: bases({'a': a[:2], 'm': m[:2], 'dim': 2})[0]))
        M = bases({'a': a[:2], 'm': m[:2], 'dim': 2})[1]
        x = r + rng.uniform(-.03, .03)
        s = math.sqrt(x * abs(np.linalg.det(E)) / abs(np.linalg.det(M)))
        p = [m[1][0] * s, m[1][1] * s, m[1][2]]
        sizes = [n for n in range(1, 20) if (1 - v) * x <= n <= (1 + v) * x] or [max(1, round(x))]
        if norbits(sizes, E) == ntask:
            return {'a': [a[0], a[1]], 'm': [5, p], 'dim': 2, 'vol': v}


import math


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    try:
        pairs = {}
        for g in gens[:6000 if big else 500]:
            n = len(g['tab'])
            if len(pairs.setdefault(n, [])) < 3:
                pairs[n].append(pairfor(rng, n))
            yield dict(rng.choice(pairs[n]), kind='schedule of the model', tab=g['tab'], pool=g['pool'], nsol=g['nsol'], hist=g['hist'])
    except Setup:
        pass
    for i in range(300 if big else 100):
        dim = rng.choice([2, 2, 3])
        a = bravais(rng, None, dim)
        m = bravais(rng, 5 if dim == 2 else 14, dim)
        w = rng.random()
        yield {'kind': 'random schedule, %dD' % dim, 'a': [a[0], a[1]], 'm': [m[0], m[1]], 'dim': dim, 'seed': rng.random(),
               'r': rng.choice([.3, 1, 1, 2, 3, 4, 5, 6, 6.5, 7.4]) if dim == 2 else (rng.choice([.4, 1, 2, 2.5, 3, 4, 5]) if i % 10 else 10),
               'vol': rng.choice([.1, .1, .05, .3, .6, 1.0, 1.2]) if dim == 2 else rng.choice([.1, .1, .3]), 'nsol': rng.choice([1, 2, 3, 5, 8]),
               'pool': rng.choice([None, 1, 2, 3, 5, 40])}
    for i in range(120 if big else 32):
        dim = 2 if i % 8 else 3
        a = bravais(rng, None, dim)
        m = bravais(rng, None, dim)
        yield {'kind': 'real, %dD' % dim, 'a': [a[0], a[1]], 'm': [m[0], m[1]], 'dim': dim, 'seed': rng.random(), 'real': True,
               'r': rng.choice([1, 1, 2, 3, 4.4]) if dim == 2 else 1, 'vol': rng.choice([.1, .3]) if dim == 2 else .1, 'nsol': rng.choice([1, 2, 4]) if dim == 2 else 1,
               'pool': rng.choice([None, 1, 2, 5])}


class Async(object):
    def __init__(self, get, ready):
        self._get, self._ready, self._r = get, ready, False

    def ready(self):
        self._r = self._r or self._ready()
        return self._r

    def get(self, timeout=None):
        return self._get()

    def wait(self, timeout=None):
        self._r = True

    def successful(self):
        return True


def execute(c, ev):
    from structrans.marttrans.lat_cor import lat_cor_hnf
    from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
    from structrans.marttrans.lat_cor.lat_opt import lat_opt_unpack
    r = random.Random(c.get('seed', 0))
    dim = c['dim']
    A, M = bases(c)
    pm = c['m'][1]
    if 'r' in c:
        # bring the volume ratio to r
        x = c['r'] * (1 if c['r'] != int(c['r']) else 1 + r.uniform(-.02, .02))
        s = (x * abs(np.linalg.det(A)) / abs(np.linalg.det(M))) ** (1. / dim)
        k = {2: [1, 2, 2, 1, 2], 3: [1, 1, 1, 2, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3]}[dim][c['m'][0] - 1]
        pm = [p * s if i < k else p for i, p in enumerate(pm)]
        A, M = bases({'a': c['a'], 'm': [c['m'][0], pm], 'dim': dim})
    G = special_group(A) if not c.get('real') else []
    Ai = np.linalg.inv(A)
    given, cands = [], []
    answers = list(c.get('hist', []))

    def ready():
        if c.get('hist') is not None:
            return answers.pop(0) if answers else True
        return r.random() < .6
    T = np.eye(dim, dtype=int)
    T[0, 1] = 1

    def table(h, i):
        if 'tab' in c:
            t = c['tab'][i] if i < len(c['tab']) else []
            t = [(k, d / 4.) for k, d in t]
        else:
            ds = sorted(r.choice([r.randint(1, 12) / 4., r.uniform(.1, 4)]) for _ in range(r.randint(0 if r.random() < .1 else 1, 5)))
            t = [(k, d) for k, d in enumerate(ds) for _ in range(r.choice([1, 1, 1, 2]))]
        res, seen = [], set()
        stab = [np.rint(np.linalg.inv(h).dot(m).dot(h)).astype(int) for m in G if related(h, h, [m])]
        for k, d in t:
            l = np.linalg.matrix_power(T, k)
            if k in seen:
                l = r.choice(stab).dot(l)
                if dim == 2:
                    l = l * r.choice([1, -1])
            seen.add(k)
            res.append((l, d))
        return res

    def par(args):
        arg = args[0]
        ih, opts = arg[3], arg[2]
        h = np.rint(Ai.dot(arg[0])).astype(int)
        given.append(h)
        if c.get('real'):
            def get(done=[]):
                if not done:
                    done.append(lat_opt_unpack(arg))
                    for l, d in zip(done[0][1]['lopt'], done[0][1]['dopt']):
                        cands.append((h, l, d))
                return done[0]
            return Async(get, ready)
        t = table(h, len(given) - 1)
        for l, d in t:
            cands.append((h, l, d))
        return Async(lambda: (ih, {'lopt': [l for l, d in t], 'dopt': [d for l, d in t]}), ready)
    kw = {'dim': dim, 'nsol': c['nsol'], 'vol_th': c['vol'], 'disp': 0}
    pkw = dict(kw, lat_opt_par=par)
    if c.get('pool'):
        pkw['poolsize'] = c['pool']
    if r.random() < .5 or c.get('r') == 10:
        pkw['reduce_hnfs_par'] = lambda args: [reduce_hnfs(a) for a in args]
    y = call(lat_cor_hnf, c['a'][0], c['a'][1], c['m'][0], pm, limit=300, **pkw)
    base = {'op': 'search', 'e1': raw(A), 'e2': raw(M), 'nsol': c['nsol'], 'vol': raw(float(c['vol'])), 'exact': not c.get('real'),
            'args': [c['a'], [c['m'][0], pm]], 'pool': str(c.get('pool'))}

    def log(y, how):
        e = dict(base, how=how, given=raw(given), cands=[{'h': raw(h), 'l': raw(l), 'd': raw(d)} for h, l, d in cands], sols=[])
        if isexc(y):
            ev.append(dict(e, out=out(y)))
        else:
            e['sols'] = [{'h': raw(s['h']), 'l': raw(s['l']), 'd': raw(s['d'])} for s in y]
            ev.append(dict(e, out=out([])))
    log(y, 'parallel')
    if c.get('real') and not isexc(y):
        log(call(lat_cor_hnf, c['a'][0], c['a'][1], c['m'][0], pm, limit=300, **kw), 'serial')


if __name__ == '__main__':
    import c20
    main(c20)
