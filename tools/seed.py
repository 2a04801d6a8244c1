#!/usr/bin/env python3
"""Plants one bug: tools/seed.py DEFFILE.py [--no-check]

DEFFILE defines a list SEEDS of dicts {id, property, edits: [(file, old, new)], needs, breaks, demo, checks}.
Each bug is applied to a scratch copy of /repo, where the existing tests and the demonstration run; a bug that
passes is written to /verif/seeded/<id>/.  Then the checks named are run against /repo with the patch applied.
"""
import json, os, shutil, subprocess, sys, re, importlib.util
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '8263576'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def plant(s, check=True):
    tmp = '/tmp/seed/' + s['id']
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    sh(f'cp -a /repo {tmp}')
    for file, old, new in s['edits']:
        p = os.path.join(tmp, file)
        text = open(p, newline='').read()
        if '\r\n' in text:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert text.count(old) == s.get('count', 1), (s['id'], file, text.count(old), old)
        open(p, 'w', newline='').write(text.replace(old, new))
    diff = subprocess.run(['git', '-C', tmp, 'diff'], capture_output=True).stdout
    # changed lines must be original ones
    for file in set(e[0] for e in s['edits']):
        blame = sh(f'git -C {tmp} diff -U0 -- {file}').stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', blame, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                b = sh(f'git -C {tmp} blame -s -L{a},+{n} HEAD -- {file}').stdout
                mine = [l for l in b.splitlines() if not l.startswith('^')]
                if mine: print('   NOTE lines of my own commits:', mine[:3])
    out = '/verif/seeded/' + s['id']
    demo = f'/tmp/seed/{s["id"]}_demo'
    shutil.rmtree(demo, ignore_errors=True); os.makedirs(demo)
    open(demo + '/demo.py', 'w').write(s['demo'])
    open(demo + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(demo + '/demo.sh', 0o755)
    a = sh(f'bash {demo}/demo.sh', cwd='/repo'); b = sh(f'bash {demo}/demo.sh', cwd=tmp)
    if a.returncode or not b.returncode:
        print(s['id'], 'DEMO', a.returncode, b.returncode, a.stdout[-600:], a.stderr[-1500:], b.stdout[-500:]); return False
    lib = f'/tmp/seed/{s["id"]}_lib'
    os.makedirs(lib, exist_ok=True)
    open(lib + '/skip_testing_init.py', 'w').write(open('/opt/vp/lib/skip_testing_init.py').read().replace('/repo', tmp))
    env = dict(os.environ, PYTHONPATH=f'{lib}:{tmp}', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    t = sh(f'{PY} -m pytest -q -c /dev/null --rootdir={tmp} -p skip_testing_init -p no:cacheprovider -n 8 --timeout=300 Testing', cwd=tmp, env=env)
    last = t.stdout.strip().splitlines()[-1]
    shutil.rmtree(lib)
    if t.returncode:
        print(s['id'], 'TESTS FAIL', last, [l for l in t.stdout.splitlines() if l.startswith('FAILED')][:4]); return False
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(demo, out)
    open(out + '/patch.diff', 'wb').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp); shutil.rmtree(demo)
    print(s['id'], 'planted:', last, flush=True)
    if check: run(s['id'], s.get('checks') or [s['property']])
    return True

def run(id, checks):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    r = sh(f'git -C /repo apply /verif/seeded/{id}/patch.diff')
    assert not r.returncode, r.stderr
    try:
        for c in checks:
            r = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./run.py {c} quick', cwd=HERE)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print('   ', id, c, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', (v or r.stdout.splitlines()[-1:] or [r.stderr[-300:]])[0][:200], flush=True)
    finally:
        sh('git -C /repo checkout -- .')

if __name__ == '__main__':
    if sys.argv[1] == 'run':
        for id in sys.argv[2:]:
            p = json.load(open(f'/verif/seeded/{id}/meta.json'))['property']
            run(id, [p])
    else:
        spec = importlib.util.spec_from_file_location('d', sys.argv[1]); d = importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
        only = [a for a in sys.argv[2:] if not a.startswith('-')]
        for s in d.SEEDS:
            if not only or s['id'] in only: plant(s, '--no-check' not in sys.argv)
