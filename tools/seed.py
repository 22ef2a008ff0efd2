"""Confirm planted changes: python3 tools/seed.py SPEC.py [ID ...]
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Each is applied in a scratch copy of /repo; kept in seeded/<id>/ when the stable tests pass with it and
the demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
base = json.load(open('/opt/vp/BASELINE.json'))
txt = json.dumps(base)
DEMO = '''#!/bin/bash
cd "${REPO_DIR:-/repo}" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def one(s):
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        r = os.path.join(d, 'repo')
        sh('cp -a /repo %s' % r)
        dem = os.path.join(d, 'demo')
        os.makedirs(dem)
        open(dem + '/demo.py', 'w').write(s['demo'])
        for n, c in s.get('files', {}).items():
            open(dem + '/' + n, 'w').write(c)
        run = 'cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python %s/demo.py' % (r, r, dem)
        rc0, o0 = sh(run)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s, 'EDIT matches %d times: %r' % (t.count(old), old), ''
            open(p, 'w').write(t.replace(old, new))
        _, diff = sh('git diff', cwd=r)
        rc1, o1 = sh(run)
        if rc0 != 0:
            return s, 'DEMO fails on the unchanged tree\n' + o0[-800:], ''
        if rc1 == 0:
            return s, 'DEMO passes with the change', ''
        rct, ot = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q tests -p no:cacheprovider -x 2>&1 | tail -5' % r, cwd=r)
        if 'failed' in ot or 'error' in ot:
            return s, 'TESTS fail\n' + ot, ''
        props = [s['prop']] if not s.get('all') else []
        rcs = []
        for pr in props:
            rc, o = sh('python3 check.py %s quick' % pr, cwd=VERIF, env={'NRWAL_SA_REPO': r, 'NRWAL_SA_EVIDENCE': d}, timeout=900)
            rcs.append('%s exit %d %s' % (pr, rc, [x for x in o.splitlines() if 'VIOLATION' in x or x.startswith('  violat')][:2]))
        k = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(k, exist_ok=True)
        open(k + '/patch.diff', 'w').write(diff)
        open(k + '/demo.sh', 'w').write(DEMO)
        os.chmod(k + '/demo.sh', 0o755)
        for n in os.listdir(dem):
            if n != '__pycache__':
                shutil.copy(os.path.join(dem, n), k)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(k + '/meta.json', 'w'), indent=1)
        return s, 'KEPT', ' | '.join(rcs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [s for s in ns['SEEDS'] if not only or s['id'] in only]
with ThreadPoolExecutor(4) as ex:
    for s, r, c in ex.map(one, todo):
        print('%-6s %-4s %s  %s' % (s['id'], s['prop'], r, c), flush=True)
