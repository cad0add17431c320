"""The report of either search, printed, logged and written to a log file, read back line by line."""
from common import *
from gens import *
import io, re, contextlib, tempfile, shutil
from c17 import pair, bases
from structrans import BravaisLattice

NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def pick(rng, how, dim, nsol):
    if dim == 2:
        return pair(rng, 2, nsol, 5)
    from c18 import near
    if how == 'hnf':
        return near(rng, rng.randint(1, 14), rng.randint(1, 14), .06)
    return pair(rng, 3, nsol, 2.)


def plan(tier, rng, gens):
    big = tier == 'thorough'
    for rep in range(8 if big else 2):
        for g in gens:
            yield dict(g, kind='run of the model', seed=rng.randrange(10 ** 6), file=rng.random() < .3, **pick(rng, g['how'], 2, g['nsol']))
    for i in range(60 if big else 12):
        how = 'hnf' if i % 3 else 'direct'
        nsol = rng.choice([1, 1, 2])
        yield dict(pick(rng, how, 3, nsol), kind='3D ' + how, how=how, nsol=nsol, disp=rng.randint(1, 4), seed=rng.randrange(10 ** 6), file=rng.random() < .5,
                   dist=rng.choice(['Cauchy', 'Ericksen', 'strain']) if how == 'hnf' else 'Cauchy')


def lex(text):
    """the lines of a report that say something about a solution"""
    sec, res = '', []
    for ln in text.splitlines():
        low = ln.lower()
        m = re.match(r'\s*solution\s+(\d+)', low)
        if m:
            sec = 'head'
            res.append({'op': 'line', 'kind': 'head', 'x': [int(m.group(1))], 'name': ''})
        elif not sec:
            continue
        elif 'correspondence' in low:
            sec = 'cor'
        elif 'stretch matrix' in low:
            sec = 'u'
        elif 'hermite' in low:
            sec = 'h'
        elif 'eigen' in low:
            sec = 'lam'
        elif 'distance' in low:
            sec = 'dist'
            n = [w for w in ('cauchy', 'ericksen', 'strain') if w in low]
            res.append({'op': 'line', 'kind': 'name', 'x': [], 'name': n[0] if len(n) == 1 else str(n)})
        elif sec in ('cor', 'u', 'h') and '[' in ln:
            x = re.findall(NUM, ' '.join(re.findall(r'\[([^\]]*)\]', ln)))
            res.append({'op': 'line', 'kind': sec, 'x': [num(float(v)) for v in x], 'name': ''})
        elif sec == 'lam' and '=' in ln:
            x = re.findall(r'=\s*(%s)' % NUM, ln)
            res.append({'op': 'line', 'kind': 'lam', 'x': [num(float(v)) for v in x], 'name': ''})
        elif sec == 'dist' and '=' in ln:
            x = re.findall(r'=\s*(%s)' % NUM, ln)
            res.append({'op': 'line', 'kind': 'dist', 'x': [num(float(v)) for v in x], 'name': ''})
            sec = 'after'
    return res


def lattices(text):
    ls = [ln.strip() for ln in text.splitlines()]
    res = []
    for w in ('austenite', 'martensite'):
        for i, ln in enumerate(ls[:-1]):
            if w in ln.lower() and 'lattice' in ln.lower():
                res.append(' '.join(ls[i + 1].split()))
                break
    return res


class Grab(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, rec):
        self.lines.append(rec.getMessage())


def into(buf, f, *a, **kw):
    with contextlib.redirect_stdout(buf):
        return f(*a, **kw)


def execute(c, ev):
    from structrans.marttrans.lat_cor import lat_cor_direct, lat_cor_hnf
    f = lat_cor_hnf if c['how'] == 'hnf' else lat_cor_direct
    kw = {'nsol': c['nsol'], 'dim': c['dim']}
    if c['how'] == 'hnf':
        kw['dist'] = c['dist']
        kw['vol_th'] = .15
    desc = [' '.join(str(must(lambda: BravaisLattice(x[0], x[1], dim=c['dim']))).split()) for x in (c['a'], c['m'])]
    a = (c['a'][0], c['a'][1], c['m'][0], c['m'][1])
    b0, b1, g0, g = io.StringIO(), io.StringIO(), Grab(), Grab()
    root = logging.getLogger()
    lg = logging.getLogger('structrans')
    old = list(root.handlers), root.level, lg.level
    tmp = tempfile.mkdtemp()
    text = None
    try:
        logging.disable(logging.NOTSET)
        root.handlers[:] = []
        lg.setLevel(logging.INFO)
        lg.addHandler(g0)
        np.random.seed(c['seed'])
        y0 = call(into, b0, f, *a, disp=0, limit=400, **kw)
        lg.removeHandler(g0)
        lg.addHandler(g)
        if c['file'] and c['how'] == 'direct':
            kw['logfile'] = os.path.join(tmp, 'run.log')
        np.random.seed(c['seed'])
        y = call(into, b1, f, *a, disp=c['disp'], limit=400, **kw)
        for h in list(root.handlers):
            h.close()
        if 'logfile' in kw:
            try:
                text = open(kw['logfile']).read()
            except (OSError, IOError):
                text = ''
    finally:
        lg.removeHandler(g0)
        lg.removeHandler(g)
        root.handlers[:] = old[0]
        root.setLevel(old[1])
        lg.setLevel(old[2])
        logging.disable(logging.CRITICAL)
        shutil.rmtree(tmp, ignore_errors=True)
    bad = isexc(y) or isexc(y0)
    ss = [] if bad else [{k: out(s.get(k)) for k in ('h', 'd', 'cor', 'u', 'lams')} for s in y]
    ds = [out(np.array([float(s['d']) for s in z] if not isexc(z) else [], float)) for z in (y, y0)]
    ev.append({'op': 'search', 'how': c['how'], 'dim': c['dim'], 'dist': c['dist'], 'out': out(y) if isexc(y) else out(0), 'quiet': out(y0) if isexc(y0) else out(0),
               'silent': b0.getvalue()[:200], 'sols': ss, 'ds': ds[0], 'dq': ds[1], 'args': [c['a'], c['m']]})
    if bad:
        return
    for where, t in (('printed', b1.getvalue()), ('logged', '\n'.join(g.lines)), ('logged without display', '\n'.join(g0.lines)), ('file', text)):
        if t is None:
            continue
        ev.append({'op': 'report', 'where': where})
        ev.append({'op': 'lattices', 'shown': lattices(t), 'desc': desc})
        ev.extend(lex(t))
        ev.append({'op': 'end'})


if __name__ == '__main__':
    import c29
    main(c29)
