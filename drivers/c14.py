"""Rotation helpers: axis-angle, Euler words of the model and general ones, screw operations."""
from common import *
from gens import *
import math


def plan(tier, rng, gens):
    big = tier == 'thorough'
    rng.shuffle(gens)
    for i in range(0, len(gens), 24):
        yield {'kind': 'quarter turns of the model', 'gen': gens[i:i + 24], 'seed': rng.random()}
    for rep in range(60 if not big else 1500):
        yield {'kind': 'axis and angle', 'what': 'rot', 'seed': rng.random()}
    for rep in range(30 if not big else 500):
        yield {'kind': 'Euler angles', 'what': 'euler', 'seed': rng.random()}
    for rep in range(12 if not big else 150):
        yield {'kind': 'screw', 'what': 'skew', 'seed': rng.random()}
    yield {'kind': 'refused', 'what': 'bad', 'seed': rng.random()}


def axis(r):
    w = r.random()
    if w < .3:
        while True:
            v = [r.randint(-3, 3) for _ in range(3)]
            if any(v):
                return v
    if w < .45:
        return r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -2, 0], [0, 0, -1], [1, 1, 0], [1, 1, 1], [-1, 0, 1]])
    if w < .75:
        # around |cos| = 0.9 with the first axis
        t = math.acos(r.choice([.9, -.9, .899, .901, .95, -.95, 1, .9999])) + r.uniform(-.02, .02)
        p = r.uniform(0, 6.3)
        return [q(math.cos(t), 10), q(math.sin(t) * math.cos(p), 10), q(math.sin(t) * math.sin(p), 10)]
    s = r.choice([1e-3, 1, 1, 50, 1e3])
    return [s * q(r.uniform(-1, 1), 8) for _ in range(2)] + [s * q(r.uniform(.1, 1), 8)]


def ang(r):
    w = r.random()
    if w < .4:
        return r.choice([0, 30, 45, 60, 90, 120, 180, 270, 360, -90, -120, 135., 450, -180])
    if w < .8:
        return q(r.uniform(-360, 360), 4)
    return q(r.uniform(-2000, 2000), 3)


def form(r, v):
    return v if r.random() < .4 else np.array(v) if r.random() < .7 else tuple(v)


def execute(c, ev):
    from structrans.util import rotation, Euler
    r = random.Random(c['seed'])
    for g in c.get('gen', []):
        order = ''.join(w[0] if r.random() < .7 else w[0].lower() for w in g['w'])
        a = [int(w[1]) * 90 - r.choice([0, 0, 360]) for w in g['w']]
        if r.random() < .6:
            y = call(Euler, form(r, a), order)
            ev.append({'op': 'quarter', 'want': g['r'], 'unit': 'deg', 'order': order.upper(), 'a': raw(a), 'out': out(y)})
        else:
            b = [math.radians(x) for x in a]
            ev.append({'op': 'quarter', 'want': g['r'], 'unit': 'rad', 'order': order.upper(), 'a': raw(b), 'out': out(call(Euler, form(r, b), order, 'rad'))})
    if c.get('what') == 'rot':
        for _ in range(6):
            a, v = ang(r), axis(r)
            ev.append({'op': 'rotation', 'unit': 'deg', 'a': raw(a), 'axis': raw(v), 'out': out(call(rotation, a, form(r, v)) if r.random() < .5 else call(rotation, a, form(r, v), unit='deg'))})
            b = math.radians(a)
            ev.append({'op': 'rotation', 'unit': 'rad', 'a': raw(b), 'axis': raw(v), 'out': out(call(rotation, b, form(r, v), unit='rad'))})
            s = r.choice([2, -1, .25, 100])
            w = [s * x for x in v]
            ev.append({'op': 'rotation', 'unit': 'deg', 'a': raw(a), 'axis': raw(w), 'out': out(call(rotation, a, form(r, w)))})
    if c.get('what') == 'euler':
        for _ in range(5):
            a = [ang(r) for _ in range(3)]
            order = ''.join(r.choice('XYZxyz') for _ in range(3))
            if r.random() < .3:
                ev.append({'op': 'euler', 'unit': 'deg', 'order': 'ZXZ', 'a': raw(a), 'out': out(call(Euler, form(r, a)))})
            ev.append({'op': 'euler', 'unit': 'deg', 'order': order.upper(), 'a': raw(a), 'out': out(call(Euler, form(r, a), order, 'deg'))})
            b = [math.radians(x) for x in a]
            ev.append({'op': 'euler', 'unit': 'rad', 'order': order.upper(), 'a': raw(b), 'out': out(call(Euler, form(r, b), order, unit='rad'))})
    if c.get('what') == 'skew':
        from structrans.crystallography.spacegroup import skew
        for _ in range(4):
            n = r.choice([1, 2, 3, 4, 6])
            p = r.randint(0, 2 * n + 1)
            T = axis(r)
            y = call(skew, n, p, form(r, T) if r.random() < .7 else np.array(T))
            ev.append({'op': 'skew', 'n': n, 'p': p, 'axis': raw(T), 'out': out(y) if isexc(y) else {'t': 'pair', 'q': out(y[0]), 'c': out(np.array(y[1]))}})
    if c.get('what') == 'bad':
        for a, o in (([1, 2], 'ZXZ'), ([1, 2, 3, 4], 'ZXZ'), ([1, 2, 3], 'ZX'), ([1, 2, 3], 'ZXZX'), ([1, 2, 3], 'ZXA'), ([1, 2, 3], 'AXZ'), ([1, 2, 3], 'Z1Z'), ([], 'ZXZ'), ([1, 2, 3], ''), ([1, 2], 'ZX'),
                     ([1, 2, 3, 4], 'XYZX'), (np.array([1., 2]), 'XYZ'), ([0, 0, 0], 'XYW'), ([0, 0, 0], 'x-z'), ([1], 'X')):
            for u in ('deg', 'rad'):
                ev.append({'op': 'refused', 'what': repr((a, o)), 'out': out(call(Euler, a, o, u))})


if __name__ == '__main__':
    import c14
    main(c14)
