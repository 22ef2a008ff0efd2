"""Self-test of the checks: python3 tools/corpus.py [-a] [PROP|name ...]
Applies every edit of tools/corpus/*.py to a scratch copy of the package and runs checks on it.
(prop, name, expect, [(file, old, new)]): expect 1 = a change that breaks the property, 0 = behaviour kept
(with -a, kept-behaviour edits are run against all checks)."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = '-a' in sys.argv
sel = [a for a in sys.argv[1:] if a != '-a']
items = []
for f in sorted(glob.glob(os.path.join(VERIF, 'tools', 'corpus', '*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    items += ns['ITEMS']
ALL = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(VERIF, 'nrwal_sa', 'rules', 'c[0-9][0-9].py')))


def replace_def(t, qual, new):
    """whole function (decorators included) replaced; new is dedented source"""
    import ast
    import textwrap
    cls, _, fn = qual.rpartition('.')
    want = fn.split('@')
    for n in ast.walk(ast.parse(t)):
        body = n.body if isinstance(n, ast.ClassDef) and n.name == cls else n.body if isinstance(n, ast.Module) and not cls else []
        for f in body:
            if isinstance(f, ast.FunctionDef) and f.name == want[0] and (len(want) == 1 or any(want[1] in ast.unparse(d) for d in f.decorator_list)):
                a = min([f.lineno] + [d.lineno for d in f.decorator_list]) - 1
                ls = t.splitlines(True)
                return ''.join(ls[:a]) + textwrap.indent(textwrap.dedent(new).strip('\n') + '\n', '    ' if cls else '') + ''.join(ls[f.end_lineno:])
    raise SystemExit('no function ' + qual)


def one(it):
    prop, name, expect, edits = it
    d = tempfile.mkdtemp(prefix='corp_')
    try:
        shutil.copytree('/repo/NRWAL', d + '/NRWAL', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if old.startswith('def:'):
                t2 = replace_def(t, old[4:], new)
                open(p, 'w').write(t2)
                continue
            if t.count(old) < 1:
                return it, 'EDIT matches %d times: %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        try:
            for root, _, files in os.walk(d):
                for x in files:
                    if x.endswith('.py'):
                        compile(open(os.path.join(root, x)).read(), x, 'exec')
        except SyntaxError as e:
            return it, 'SYNTAX %s' % e
        props = [prop] if expect or not allp else ALL
        if expect == 0 and prop == '*':
            props = ALL
        msgs = []
        for pr in props:
            e = dict(os.environ, NRWAL_SA_REPO=d, NRWAL_SA_EVIDENCE=d + '/ev')
            try:
                p = subprocess.run(['python3', 'check.py', pr, 'quick'], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                rc, o = p.returncode, p.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired:
                rc, o = 99, 'TIMEOUT'
            if rc != expect:
                msgs.append('%s exit %d %s' % (pr, rc, ' || '.join(x.strip()[:260] for x in o.splitlines() if 'undecided:' in x or '[' in x and 'obligations' not in x)[:900]))
        return it, ('; '.join(msgs) if msgs else 'ok')
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [i for i in items if not sel or i[0] in sel or i[1] in sel]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for it, r in ex.map(one, todo):
        if r != 'ok':
            bad += 1
            print('%-4s %-34s expect %d: %s' % (it[0], it[1], it[2], r), flush=True)
print('%d edits, %d unexpected' % (len(todo), bad))
