#!/usr/bin/env python3
"""mutate.py OUT N SEED [FILE...]: mutation campaign on scratch copies (never /repo).  Plants N random small changes
(comparison, arithmetic, constant, condition, index, dropped statement), runs the checks of the properties anchored in
the changed file one after another until one reports a violation, and logs killed / survived to OUT."""
import sys, os, ast, json, random, shutil, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
C, M, L = 'structrans/crystallography/', 'structrans/marttrans/', 'structrans/marttrans/lat_cor/'
MAP = {
    C + 'hnf.py': 'C01 C02', C + 'sublattice.py': 'C01 C02', C + 'lattice.py': 'C03 C04 C05 C06', C + 'matrix_group.py': 'C10 C04 C06',
    C + 'bravais_lattice.py': 'C07 C08 C09 C06', C + 'lattice_reduction.py': 'C22', C + 'spacegroup.py': 'C14', C + 'stereogram.py': 'C28',
    C + 'visualization.py': 'C28', M + 'martensite.py': 'C11 C12 C06', M + 'orientation_relationship.py': 'C13', M + 'twin.py': 'C23 C24 C25 C06',
    M + 'Compatibility.py': 'C26', L + 'dist.py': 'C15', L + 'dfs.py': 'C21', L + 'lat_opt.py': 'C21', L + 'slnode.py': 'C21', L + 'quartic_opt.py': 'C30',
    L + 'main_direct.py': 'C29 C17 C18 C16', L + 'main_hnf.py': 'C29 C20 C19 C18', 'structrans/mat_math.py': 'C27 C26', 'structrans/util/utils.py': 'C14 C26 C01 C24'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*', ast.Pow: '*'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(src):
    """(line, old text, new text, new source)"""
    t = ast.parse(src)
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    docs = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))

    def put(n, new):
        a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        return n.lineno, b[a:z].decode(), new, (b[:a] + new.encode() + b[z:]).decode()
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield put(n, '%s %s %s' % (seg(src, n.left), CMP[type(n.ops[0])], seg(src, n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield put(n, '(%s %s %s)' % (seg(src, n.left), BIN[type(n.op)], seg(src, n.right)))
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield put(n, '(' + j.join('(%s)' % seg(src, v) for v in n.values) + ')')
            for k in range(len(n.values)):
                v = [x for i, x in enumerate(n.values) if i != k]
                yield put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(src, x) for x in v) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield put(n, '(%s)' % seg(src, n.operand))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                yield put(n, str(not n.value))
            elif isinstance(n.value, int):
                yield put(n, str(n.value + 1))
            elif isinstance(n.value, float):
                yield put(n, repr(n.value * 1.1))
                if 0 < abs(n.value) < 1e-2:
                    yield put(n, repr(n.value * 1000))
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            yield put(n, seg(src, n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            yield put(n, seg(src, n.func.value))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and id(n) not in docs:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(src, n.value.func).startswith(('print', 'logging', 'warn', 'logger')):
                continue
            yield put(n, 'pass')
        elif isinstance(n, ast.If):
            yield put(n.test, 'True')
            yield put(n.test, 'False')


CACHE = {}


def model(prop):
    if prop not in CACHE:
        t = tempfile.mkdtemp()
        CACHE[prop] = check.run_models(prop, 'quick', t)[1]
        shutil.rmtree(t)
    return CACHE[prop]


def judge(prop, repo):
    os.environ['VP_REPO'] = repo
    t = tempfile.mkdtemp()
    try:
        recs, plan = check.run_driver(prop, 1, 'quick', model(prop), t)
        bad = check.validate(prop, recs, t, 'quick')[0]
        if bad:
            i = min(bad)
            return 'killed by %s: %s' % (prop, bad[i][1])
        return None if len(recs) == plan else 'stopped early'
    except SystemExit:
        return 'machinery error in %s' % prop
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or sorted(MAP)
    r = random.Random(seed)
    allm = []
    for f in files:
        src = open('/repo/' + f).read()
        for m in mutants(src):
            try:
                ast.parse(m[3])
            except SyntaxError:
                continue
            allm.append((f,) + m)
    print(len(allm), 'mutants', flush=True)
    r.shuffle(allm)
    W = tempfile.mkdtemp(prefix='mut_')
    shutil.copytree('/repo', W + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
    with open(outp, 'a') as out:
        for f, line, old, new, src in allm[:n]:
            orig = open('/repo/' + f).read()
            open(W + '/repo/' + f, 'w').write(src)
            res = None
            for p in MAP[f].split():
                res = judge(p, W + '/repo')
                if res:
                    break
            open(W + '/repo/' + f, 'w').write(orig)
            out.write('%s %s:%d  %s  ==>  %s   [%s]\n' % ('KILLED' if res and res.startswith('killed') else 'SURVIVED' if res is None else 'ERROR', f, line, ' '.join(old.split())[:120], ' '.join(new.split())[:120], res))
            out.flush()
    shutil.rmtree(W)


main()
