#!/usr/bin/env python3
"""seed.py FILE...: plant the bugs described in FILE (see the format in the code) in a scratch copy of /repo, confirm
them (stable tests pass, demo passes without and fails with the change), store them in seeded/<id>, run the property's
check against the scratch copy and report whether it caught the change.  --check ID...: only rerun the checks."""
import sys, os, re, json, subprocess, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwt_%d' % os.getpid()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
PY = '/opt/pypyvenv/bin/python'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, **kw.pop('env', {})), **kw)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)


def check(i, prop):
    r = run(['python3', 'check.py', prop], H, env={'VP_REPO': W})
    caught = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    why = re.findall(r'event \d+: (.*)', r.stdout)
    print('%-28s %s %s %s' % (i, prop, 'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode, why[:1] if caught else r.stdout[-300:]), flush=True)
    return caught


def plant(text):
    head, *blocks = re.split(r'^--- (old|new|demo|file)[ \t]*(.*)\n', text, flags=re.M)
    meta = dict(re.findall(r'^(\w+): (.*)$', head, flags=re.M))
    fresh()
    f, old, demo = meta['file'], None, ''
    for k, arg, body in zip(blocks[::3], blocks[1::3], blocks[2::3]):
        body = body.rstrip('\n')
        if k == 'file':
            f = arg.strip()
        elif k == 'old':
            old = body
        elif k == 'new':
            p = os.path.join(W, f)
            s = open(p).read()
            assert s.count(old) == 1, (meta['id'], 'old text occurs %d times' % s.count(old), old)
            open(p, 'w').write(s.replace(old, body))
        else:
            demo = body
    d = os.path.join(H, 'seeded', meta['id'])
    os.makedirs(d, exist_ok=True)
    diff = run(['git', 'diff'], W).stdout
    assert diff, meta['id']
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport warnings\nwarnings.filterwarnings("ignore")\nimport logging\nlogging.disable(logging.CRITICAL)\nimport numpy as np\n' + demo.lstrip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    b = run([PY, '-c', 'import structrans, structrans.marttrans.twin, structrans.marttrans.lat_cor'], W)
    t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--randomly-seed=4', '--randomly-dont-reorganize', 'structrans/crystallography/test'], W)
    m = re.search(r'(\d+) passed', t.stdout)
    try:
        g = run(['bash', os.path.join(d, 'demo.sh')], '/repo', timeout=280)
        x = run(['bash', os.path.join(d, 'demo.sh')], W, timeout=280)
    except subprocess.TimeoutExpired:
        print(meta['id'], 'demo too slow')
        return
    ok = b.returncode == 0 and g.returncode == 0 and x.returncode != 0
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    tests = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--randomly-seed=4', '--randomly-dont-reorganize'] +
                sorted(set('/'.join(s.split('::')[0].split('.')[:-1]) + '.py::' + s.split('::')[0].split('.')[-1] + '::' + s.split('::')[1] for s in stable)), W)
    if tests.returncode:
        print(meta['id'], 'STABLE TESTS FAIL', tests.stdout[-60:])
        shutil.rmtree(d)
        return
    base = run(['git', 'show', '82c2243:' + f], W).stdout.splitlines()
    if not any(l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in base for l in diff.splitlines()):
        print(meta['id'], 'CHANGES NO ORIGINAL LINE, not kept')
        shutil.rmtree(d)
        if ok:
            check(meta['id'], meta['property'])
        return
    if not ok:
        print(meta['id'], 'NOT CONFIRMED: import %d, demo without %d, with %d' % (b.returncode, g.returncode, x.returncode), g.stdout[-600:], '|', x.stdout[-600:])
        shutil.rmtree(d)
        return
    check(meta['id'], meta['property'])


try:
    if sys.argv[1] == '--check':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(H, 'seeded')))
        for i in ids:
            d = os.path.join(H, 'seeded', i)
            fresh()
            r = run(['git', 'apply', os.path.join(d, 'patch.diff')], W)
            if r.returncode:
                print(i, 'DOES NOT APPLY', r.stdout)
                continue
            check(i, json.load(open(os.path.join(d, 'meta.json')))['property'])
    else:
        for f in sys.argv[1:]:
            for part in re.split(r'^=====+\n', open(f).read(), flags=re.M):
                if part.strip():
                    try:
                        plant(part)
                    except AssertionError as e:
                        print('ASSERT', e)
finally:
    shutil.rmtree(W, ignore_errors=True)
