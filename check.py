#!/usr/bin/env python3
"""check.py <property> [--replay FILE]  -- one property, tier from VERIF_TIER, seed from VERIF_SEED.

1. model-checks the specification (spec/mc/MC_<id>*.cfg) with TLC; behaviours it prints as CASE lines
   are the histories to replay,
2. replays them, and generated inputs, in the real code of /repo (drivers/<id>.py, under PyPy),
3. validates the recorded trace against the conformance specification spec/T_<id>.tla with TLC.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the machinery failed.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
PYPY = '/opt/pypyvenv/bin/python'
CP = ':'.join([os.path.join(HERE, 'build/classes'), '/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'])
TITLE = {}


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def build():
    src = glob.glob(os.path.join(HERE, 'java/*.java'))
    cls = os.path.join(HERE, 'build/classes')
    ok = all(os.path.exists(os.path.join(cls, os.path.basename(s)[:-5] + '.class')) and
             os.path.getmtime(os.path.join(cls, os.path.basename(s)[:-5] + '.class')) >= os.path.getmtime(s) for s in src)
    if not ok:
        r = subprocess.run(['bash', os.path.join(HERE, 'setup.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die('setup failed\n' + r.stdout)


def tlc(module, cfg, tmp, env=None, timeout=840, extra=(), workers=8, heap='6g'):
    """returns (output text, distinct, generated, finished ok)"""
    e = dict(os.environ)
    e.update(env or {})
    md = tempfile.mkdtemp(dir=tmp)
    cmd = ['java', '-Djava.io.tmpdir=' + md, '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', CP, '-DTLA-Library=' + SPEC, 'tlc2.TLC',
           '-metadir', md, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return ((x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), 0, 0, False)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.stdout, d, g, r.returncode == 0 and 'Model checking completed. No error' in r.stdout


def run_models(prop, tier, tmp):
    """model-check the property's design specification; collect the behaviours it emits"""
    cov, cases, st, tr = [], [], 0, 0
    cfgs = sorted(glob.glob(os.path.join(SPEC, 'mc', 'MC_%s_*.cfg' % prop)) + glob.glob(os.path.join(SPEC, 'mc', 'MC_%s.cfg' % prop)))
    for cfg in cfgs:
        base = os.path.basename(cfg)[:-4]
        if base.endswith('_thorough') != (tier == 'thorough') and (base.endswith('_thorough') or os.path.exists(cfg[:-4] + '_thorough.cfg')):
            continue
        head = open(cfg).readline()
        m = re.match(r'\\\*\s*module\s+(\w+)', head)
        mod = m.group(1) if m else (base[:-9] if base.endswith('_thorough') else base)
        t0 = time.time()
        o, d, g, ok = tlc(os.path.join(SPEC, 'mc', mod + '.tla'), cfg, tmp)
        if not ok:
            die('model checking %s failed (the specification, not the code):\n%s' % (base, o[-3000:]))
        n0 = len(cases)
        for ln in o.splitlines():
            if ln.startswith('"CASE '):
                cases.append(json.loads(json.loads(ln)[5:]))
        cov.append({'model': mod, 'config': base, 'states': d, 'transitions': g, 'behaviours_emitted': len(cases) - n0, 'wall_s': round(time.time() - t0, 1)})
        st += d
        tr += g
    key = lambda c: json.dumps(c, sort_keys=True)
    cases = [json.loads(x) for x in sorted(set(key(c) for c in cases))]
    return cov, cases, st, tr


def run_driver(prop, seed, tier, gen, tmp, only=None, shards=8):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    gf = os.path.join(tmp, 'gen.ndjson')
    with open(gf, 'w') as f:
        for c in gen:
            f.write(json.dumps(c) + '\n')
    work = os.path.join(tmp, 'work')
    os.makedirs(work, exist_ok=True)
    ps = []
    for i in range(shards):
        o = os.path.join(tmp, 'part%d' % i)
        err = open(os.path.join(tmp, 'err%d' % i), 'w')
        a = [PYPY, os.path.join(HERE, 'drivers', prop.lower() + '.py'), prop, str(seed), tier, str(i), str(shards), gf, o]
        if only:
            a.append(','.join(map(str, only)))
        ps.append((subprocess.Popen(a, cwd=work, env=env, stdout=err, stderr=err), o, err.name))
    recs, plan = [], None
    limit = time.time() + (780 if tier == 'quick' else 7200)
    for p, o, err in ps:
        try:
            rc = p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            for q, _, _ in ps:
                q.kill()
            die('driver timed out')
        if rc:
            for q, _, _ in ps:
                q.kill()
            die('driver failed (%d):\n%s' % (rc, open(err).read()[-3000:]))
        lines = open(o).read().splitlines()
        plan = json.loads(lines[0])['plan']
        recs += [json.loads(l) for l in lines[1:]]
    recs.sort(key=lambda r: r['id'])
    return recs, plan


def validate(prop, recs, tmp, tier):
    """conformance: returns ({case index: (event index, clause)}, states, transitions)"""
    cfg = os.path.join(tmp, 'trace.cfg')
    with open(cfg, 'w') as f:
        f.write('INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n')
    bad, states, trans = {}, 0, 0
    todo = list(range(len(recs)))
    # an event the specification cannot even evaluate is a violation of its own case only
    for attempt in range(12):
        tr = os.path.join(tmp, 'trace.ndjson')
        with open(tr, 'w') as f:
            for i in todo:
                f.write(json.dumps(recs[i]) + '\n')
        o, d, g, ok = tlc(os.path.join(SPEC, 'T_%s.tla' % prop), cfg, tmp, env={'TRACE': tr}, timeout=860 if tier == 'quick' else 7200, heap='12g')
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', o):
            i = todo[int(m.group(1)) - 1]
            if i not in bad:
                bad[i] = (int(m.group(2)), m.group(3))
        if ok:
            want = sum(len(recs[i]['ev']) + 1 for i in todo)
            if not bad and d != want:
                die('conformance run visited %d states, expected %d' % (d, want))
            return bad, states + d, trans + g
        m = re.search(r'/\\ k = (\d+)', o)
        l = re.search(r'/\\ l = (\d+)', o)
        if not m:
            die('conformance checking failed:\n' + o[-3000:])
        i = todo[int(m.group(1)) - 1]
        ls = re.findall(r'/\\ l = (\d+)', o)
        msg = re.search(r'Error: (.*(?:\n.*){0,3})', o)
        bad[i] = (int(ls[-1]), 'unexplainable event: ' + re.sub(r'\s+', ' ', msg.group(1))[:300] if msg else 'unexplainable')
        states += d
        todo = [j for j in todo if j != i]
        if not todo:
            return bad, states, trans
    return bad, states, trans


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def brief(x, n=600):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        tier, seed, only = rp['tier'], rp['seed'], [v['id'] for v in rp['cases']]
    t0 = time.time()
    build()
    tmp = tempfile.mkdtemp(prefix='chk_%s_' % prop)
    try:
        cov, gen, st, tr = run_models(prop, tier, tmp)
        t1 = time.time()
        recs, plan = run_driver(prop, seed, tier, gen, tmp, only)
        t2 = time.time()
        if not recs:
            die('driver produced nothing')
        bad, cst, ctr = validate(prop, recs, tmp, tier)
        t3 = time.time()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kinds = {}
    ops = {}
    for r in recs:
        kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
        for e in r['ev']:
            ops[e['op']] = ops.get(e['op'], 0) + 1
    if not bad and only is None and len(recs) != plan:
        die('driver stopped early: %d of %d cases' % (len(recs), plan))
    kn, new, hit = known(prop), [], []
    for i, (l, why) in sorted(bad.items()):
        r = recs[i]
        e = r['ev'][l - 1] if 0 < l <= len(r['ev']) else {}
        for kf in kn:
            if kf['clause'] == why and kf['match'] in json.dumps({'kind': r['kind'], 'hd': r['hd'], 'ev': e}):
                hit.append((kf, r))
                break
        else:
            new.append((r, l, why, e))
    step = max(1, len(recs) // 3)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'coverage': {'states': st + cst, 'transitions': tr + ctr, 'traces_validated_against_impl': len(recs),
                       'events_validated': sum(len(r['ev']) for r in recs), 'models': cov, 'behaviours_replayed_from_spec': len(gen),
                       'conformance_states': cst, 'cases_by_kind': kinds, 'events_by_op': ops,
                       'seconds': {'model_checking': round(t1 - t0, 1), 'driver': round(t2 - t1, 1), 'conformance': round(t3 - t2, 1)},
                       'samples': [json.loads(json.dumps(r)) if len(json.dumps(r)) < 1500 else brief(r, 1500) for r in recs[::step][:3]]},
          'assumptions': ['TLC evaluates the specification correctly; exact rational arithmetic by java/Num.java and java/LinAlg.java',
                          'only the recorded executions of the code are judged']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for kf in {id(k): k for k, _ in hit}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    print('%s %s: %d model states, %d cases (%d events) of the real code validated, %.1f s (model %.1f, driver %.1f, conformance %.1f)' % (
        prop, tier, st, len(recs), ev['coverage']['events_validated'], time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
    if new:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'rerun': 'python3 check.py %s --replay %s' % (prop, path),
                   'cases': [dict(r, failing_event=l, clause=why) for r, l, why, e in new[:20]]}, open(path, 'w'), indent=1)
        for r, l, why, e in new[:5]:
            print('  case %d (%s) event %d: %s\n    %s' % (r['id'], r['kind'], l, why, brief(e)))
        print('  %d of %d cases rejected' % (len(new), len(recs)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
