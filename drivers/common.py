"""Shared by the drivers: run the real code, log what it did as tagged, exact values."""
import sys, os, json, signal, random
from fractions import Fraction
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings('ignore')
import logging
logging.disable(logging.CRITICAL)
import numpy as np
np.seterr(all='ignore')


class Timeout(BaseException):
    pass


TIMEOUTS = [0]


def _alarm(sig, frm):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def num(x):
    """exact value of a finite number: a 32 bit int stays one, the rest is 'n' or 'n/d'"""
    if isinstance(x, (bool, np.bool_)):
        raise TypeError
    if isinstance(x, (int, np.integer)):
        f = Fraction(int(x))
    elif isinstance(x, Fraction):
        f = x
    else:
        f = Fraction(float(x))
    if f.denominator == 1:
        return int(f) if abs(f.numerator) < 2 ** 31 else str(f.numerator)
    return '%d/%d' % (f.numerator, f.denominator)


def isbad(x):
    return not np.all(np.isfinite(x))


def nest(a):
    return num(a) if np.ndim(a) == 0 else [nest(x) for x in a]


def raw(x):
    """untagged exact value of an input (number, vector, matrix, nested list)"""
    if isinstance(x, (list, tuple, np.ndarray)):
        return [raw(y) for y in x]
    return num(x)


def enc(o):
    """tagged value of a result"""
    if o is None:
        return {'t': 'none', 'v': 0}
    if isinstance(o, (bool, np.bool_)):
        return {'t': 'bool', 'v': bool(o)}
    if isinstance(o, str):
        return {'t': 'str', 'v': o}
    if isinstance(o, (int, float, np.integer, np.floating)):
        return {'t': 'num', 'v': num(o)} if np.isfinite(o) else {'t': 'nan', 'v': str(o)}
    if isinstance(o, (complex, np.complexfloating)):
        return {'t': 'complex', 'v': repr(o)[:200]}
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'c':
            return {'t': 'complex', 'v': repr(o)[:200]}
        if o.dtype == object and o.size and all(type(x) is int for x in o.flat):    # integers beyond the machine's
            return {'t': 'arr', 'shape': list(o.shape), 'v': nest(o)}
        if o.dtype == object or o.dtype.kind not in 'iufb':
            try:
                o = np.array(o, dtype=float)
            except Exception:
                return {'t': 'other', 'v': repr(o)[:200]}
        if o.ndim == 0:
            return enc(o[()])
        if o.dtype.kind == 'b':
            return {'t': 'barr', 'v': o.tolist()}
        if isbad(o):
            return {'t': 'nan', 'v': repr(o.tolist())[:200]}
        if 0 in o.shape:
            return {'t': 'arr', 'shape': list(o.shape), 'v': o.tolist()}
        return {'t': 'arr', 'shape': list(o.shape), 'v': nest(o)}
    if isinstance(o, (list, tuple)):
        if len(o) and all(isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_)) for x in o):
            return enc(np.array(o))
        return {'t': 'list', 'v': [enc(x) for x in o]}
    if isinstance(o, dict):
        return {'t': 'rec', 'v': {str(k): enc(v) for k, v in o.items()}}
    return {'t': 'other', 'v': type(o).__name__}


class Raised(object):
    def __init__(self, name, msg, etype):
        self.name, self.msg, self.etype = name, msg, etype


def isexc(o):
    return isinstance(o, Raised)


NAMES = ['ValueError', 'TypeError', 'AttributeError', 'IndexError', 'KeyError', 'ZeroDivisionError']


def ename(e):
    """name of the builtin class the exception belongs to (subclasses count as their base)"""
    import builtins
    for c in ['ValueError', 'TypeError', 'AttributeError', 'IndexError', 'KeyError', 'StopIteration', 'AssertionError']:
        if isinstance(e, getattr(builtins, c)):
            return c
    return type(e).__name__


class silent(object):
    """the code under test prints progress"""
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.n = open(os.devnull, 'w')
        sys.stdout = sys.stderr = self.n
    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.n.close()


RESULTS = None      # the results of a case that is going to be run again


def keep(o):
    if RESULTS is not None:
        RESULTS.append(o)
    return o


def overwrite(o, depth=0):
    """spoil what a caller may do as he likes with: the arrays and lists that were returned to him"""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.flat:
                overwrite(x, depth + 1)
        elif o.dtype.kind == 'b':
            if o.flags.writeable:
                o[...] = ~o
        elif o.flags.writeable and o.dtype.kind in 'iufc':
            o[...] = o * 3 + 17
    elif isinstance(o, (list, tuple, dict)) and depth < 6:
        for x in list(o.values()) if isinstance(o, dict) else list(o):
            overwrite(x, depth + 1)
        if not isinstance(o, tuple):
            o.clear()


def call(fn, *a, limit=20, **kw):
    """result of the call, or Raised"""
    signal.alarm(int(limit))
    try:
        with silent():
            return keep(fn(*a, **kw))
    except Timeout:
        TIMEOUTS[0] += 1
        return Raised('Timeout', '', Timeout)
    except Exception as e:
        return Raised(ename(e), str(e)[:200], type(e))
    finally:
        signal.alarm(0)


HELD = None         # in a held case: results are looked at when the case is over, not when they are returned


def out(o):
    if HELD is not None:
        d = {}
        HELD.append((d, o))
        return d
    return encode(o)


def encode(o):
    if isinstance(o, Raised):
        return {'t': 'exc', 'v': o.name, 'msg': o.msg}
    try:
        return enc(o)
    except Exception as e:
        return {'t': 'other', 'v': repr(e)[:200]}


class Setup(Exception):
    """a call the case depends on failed"""


def need(o):
    if isinstance(o, Raised):
        raise Setup('%s: %s' % (o.name, o.msg))
    return o


def must(fn, *a, **kw):
    return need(call(fn, *a, **kw))


def main(mod):
    """driver entry: PROP SEED TIER SHARD NSHARDS GEN OUT [INDEX,INDEX..]"""
    prop, seed, tier, shard, n, gen, outp = sys.argv[1:8]
    only = set(int(x) for x in sys.argv[8].split(',')) if len(sys.argv) > 8 and sys.argv[8] else None
    shard, n = int(shard), int(n)
    rng = random.Random('%s/%s/%s' % (prop, seed, tier))
    gens = [json.loads(l) for l in open(gen)] if gen != '-' else []
    plan = list(mod.plan(tier, rng, gens))
    with open(outp, 'w') as f:
        f.write(json.dumps({'plan': len(plan) + sum(again(i, mod) for i in range(len(plan)))}) + '\n')
        for i, c in enumerate(plan):
            if i % n != shard or (only is not None and i not in only):
                continue
            if TIMEOUTS[0] >= 3:
                break
            for rep in range(2 if again(i, mod) else 1):
                np.random.seed((hash_str('%s/%s/%d' % (prop, seed, i))) % (2 ** 31))
                random.seed('%s/%s/%d' % (prop, seed, i))
                ev = []
                if rep:
                    overwrite(sys.modules['common'].RESULTS)
                sys.modules['common'].RESULTS = [] if again(i, mod) and not rep else None
                sys.modules['common'].HELD = [] if held(i, mod) and not rep else None
                try:
                    mod.execute(c, ev)
                except Setup as e:
                    ev.append({'op': 'crash', 'out': {'t': 'exc', 'v': str(e)}})
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    ev.append({'op': 'crash', 'out': {'t': 'exc', 'v': '%s: %s' % (type(e).__name__, str(e)[:300])},
                               'where': '%s:%d' % (tb[-1].filename, tb[-1].lineno), 'drv': '%s:%d' % (tb[1].filename, tb[1].lineno) if len(tb) > 1 else ''})
                for d, o in sys.modules['common'].HELD or []:
                    d.update(encode(o))
                f.write(json.dumps({'id': i, 'kind': c.get('kind', '') + (' (again)' if rep else ' (held)' if held(i, mod) else ''), 'hd': c.get('hd', {'x': 0}), 'ev': ev}) + '\n')


def again(i, mod):
    """every tenth case is run twice: the second time after everything the first one was given has been overwritten"""
    return getattr(mod, 'AGAIN', True) and hash_str('again %d' % i) % 10 == 0


def held(i, mod):
    """in every tenth case the results are kept and recorded at the end: an answer stays what it was when it was given"""
    return getattr(mod, 'HOLD', True) and not again(i, mod) and hash_str('held %d' % i) % 10 == 0


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())
