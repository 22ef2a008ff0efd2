"""C20: shipped formulas and configs are well formed and fully resolvable."""
import ast
import os

from .. import data as D
from ..npnames import NAMES

RULES = ['every library and config file under NRWAL/ is parsed as data; each formula must be an arithmetic expression of the allowed grammar '
         '(names, numbers, + - * / ** ^, unary minus, comparisons inside numpy calls, numpy functions)',
         'every :: reference and ./file::key pointer of a shipped config resolves (exactly or by enabled power / year interpolation)',
         'dependency graphs of groups and configs are acyclic; no duplicate keys; variables files hold numbers only']
ASSUMPTIONS = ['numeric coefficients of the formulas are data, not checked']

OPS = (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.BitXor)
NP = {'log', 'interp', 'exp', 'nansum', 'array', 'max', 'where', 'min', 'sum', 'minimum', 'maximum', 'sqrt', 'log10', 'abs', 'mean', 'ceil',
      'floor', 'power', 'clip', 'nanmax', 'nanmin', 'nanmean', 'cos', 'sin', 'tan', 'arctan', 'log2', 'log1p', 'expm1', 'round', 'square',
      'absolute', 'multiply', 'divide', 'add', 'subtract', 'float32', 'float64', 'logical_and', 'logical_or', 'logical_not', 'select',
      'isnan', 'isinf', 'full', 'zeros', 'ones', 'zeros_like', 'ones_like', 'nan', 'inf', 'pi', 'e', 'polyval', 'prod', 'cumsum', 'concatenate'}
FORBIDDEN = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')


def check(ctx, rep):
    base = os.path.join(ctx.repo, 'NRWAL')
    lib = D.Library(os.path.join(base, 'analysis_library'))
    rel = lambda p: os.path.relpath(p, ctx.repo)
    for p, e in lib.errors:
        rep.bad('readable', rel(p), 'file cannot be parsed: %s' % e)
    for p, k, l in lib.dups:
        rep.bad('duplicate-key', '%s:%d' % (rel(p), l), 'key %r is given twice' % (k,))
    for p, d in lib.files:
        rep.count('library files')
        if not isinstance(d, dict):
            rep.bad('well-formed', rel(p), 'file is not a mapping')
            continue
        var = os.path.splitext(os.path.basename(p))[0] == 'variables'
        _group(rep, p, rel(p), d, var, [])
    rep.floor('library files', 40)
    rep.floor('library formulas', 250)
    cdir = os.path.join(base, 'default_configs')
    for p in D.configs(cdir):
        rep.count('config files')
        try:
            c = D.Config(p)
        except Exception as e:
            rep.bad('readable', rel(p), 'file cannot be parsed: %s' % str(e).split('\n')[0])
            continue
        _config(rep, rel(p), c, lib)
    rep.floor('config files', 50)
    rep.floor('library references resolved', 900)


def _group(rep, path, rel, d, var, prefix):
    for k, v in d.items():
        w = '%s:%d %s' % (rel, D.line_of(path, k), '::'.join(map(str, prefix + [k])))
        if not isinstance(k, str) or D.is_num(k):
            rep.bad('well-formed', w, 'key %r is a number, not a name' % (k,))
            continue
        if isinstance(v, dict) and not var:
            _group(rep, path, rel, v, var, prefix + [k])
            continue
        if var:
            rep.count('variables')
            if isinstance(v, bool) or not (isinstance(v, (int, float)) or (isinstance(v, str) and D.is_num(v))):
                rep.bad('variables-numeric', w, 'value %r is not a number' % (v,))
            elif isinstance(v, str):
                rep.ok('variables-numeric', w)
            continue
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            rep.count('library constants')
            continue
        if not isinstance(v, str):
            rep.bad('well-formed', w, 'value of type %s' % type(v).__name__)
            continue
        rep.count('library formulas')
        for tok in FORBIDDEN:
            if tok in v:
                rep.bad('well-formed', w, 'formula contains the forbidden fragment %r' % tok)
        t = D.parse(v, refs=False)
        _expr(rep, w, v, t)
        if k in D.names_in(t):
            rep.bad('acyclic', w, 'formula refers to itself')
    if not var:
        g = {k: set(D.names_in(D.parse(v, refs=False))) & set(d) for k, v in d.items() if isinstance(v, str)}
        cyc = _cycle(g)
        if cyc:
            rep.bad('acyclic', '%s:%d %s' % (rel, D.line_of(path, cyc[0]), '::'.join(prefix + [cyc[0]])),
                    'circular reference %s' % ' -> '.join(cyc))
        else:
            rep.ok('acyclic', rel + ' ' + '::'.join(prefix), 'references between the entries are acyclic')


def _cycle(g):
    state = {}

    def dfs(n, path):
        state[n] = 1
        for m in sorted(g.get(n, ())):
            if state.get(m) == 1:
                return path[path.index(m):] + [m] if m in path else [m]
            if m not in state:
                r = dfs(m, path + [m])
                if r:
                    return r
        state[n] = 2
        return None
    for n in sorted(g):
        if n not in state:
            r = dfs(n, [n])
            if r:
                return r
    return None


def _expr(rep, w, text, t):
    if t is None:
        rep.bad('well-formed', w, 'not an arithmetic expression: %s' % ' '.join(text.split())[:120])
        return
    bad = _bad_node(t)
    if bad:
        rep.bad('well-formed', w, 'formula uses %s: %s' % (bad, ' '.join(text.split())[:120]))
    else:
        rep.ok('well-formed', w, 'arithmetic expression')


NP_BAD = ('save', 'load', 'from', 'memmap', 'DataSource', 'lib', 'f2py', 'ctypes', 'distutils', 'testing', 'os', 'sys', '_', 'random', 'genfromtxt',
          'test', 'vectorize', 'apply', 'frompyfunc', 'core', 'set', 'get', 'info', 'show', 'source')


def _np_ok(a):
    return a in NP or a in NAMES and not a.startswith(NP_BAD)


def _bad_node(t):
    if isinstance(t, ast.BinOp):
        if not isinstance(t.op, OPS):
            return 'operator %s' % type(t.op).__name__
        return _bad_node(t.left) or _bad_node(t.right)
    if isinstance(t, ast.UnaryOp):
        if not isinstance(t.op, (ast.USub, ast.UAdd)):
            return 'operator %s' % type(t.op).__name__
        return _bad_node(t.operand)
    if isinstance(t, ast.Constant):
        return None if isinstance(t.value, (int, float)) and not isinstance(t.value, bool) else 'constant %r' % (t.value,)
    if isinstance(t, ast.Name):
        return None
    if isinstance(t, ast.Attribute):
        if isinstance(t.value, ast.Name) and t.value.id == 'np' and _np_ok(t.attr):
            return None
        return 'attribute %s' % ast.unparse(t)
    if isinstance(t, ast.Call):
        f = t.func
        if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np' and _np_ok(f.attr)):
            return 'call of %s' % ast.unparse(f)
        for a in list(t.args) + [k.value for k in t.keywords]:
            b = _bad_node(a)
            if b:
                return b
        return None
    if isinstance(t, ast.Compare):
        for a in [t.left] + t.comparators:
            b = _bad_node(a)
            if b:
                return b
        return None
    if isinstance(t, (ast.List, ast.Tuple)):
        for a in t.elts:
            b = _bad_node(a)
            if b:
                return b
        return None
    return type(t).__name__


def _config(rep, rel, c, lib):
    for k, l in c.dups:
        rep.bad('duplicate-key', '%s:%d' % (rel, l), 'key %r is given twice' % (k,))
    for k, v, why in c.bad_pointers:
        rep.bad('resolves', '%s:%d %s' % (rel, D.line_of(c.path, k), k), 'pointer %s: %s' % (v, why))
    if 'equation_directory' in c.data:
        rep.unk('resolves', rel, 'config names its own equation directory')
        return
    g = {}
    for k, v in c.expanded.items():
        w = '%s:%d %s' % (rel, D.line_of(c.path, k), k)
        if not isinstance(k, str) or D.is_num(k):
            rep.bad('well-formed', w, 'key %r is a number' % (k,))
            continue
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            rep.count('config constants')
            continue
        if not isinstance(v, str):
            rep.bad('well-formed', w, 'value of type %s' % type(v).__name__)
            continue
        if D.is_num(v):
            continue
        rep.count('config expressions')
        t = D.parse(v)
        _expr(rep, w, v, t)
        g[k] = set()
        for n in D.names_in(t):
            path = D.ref_of(n)
            if path is None:
                if n in c.expanded:
                    g[k].add(n)
                continue
            rep.count('library references resolved')
            if path[0] in c.expanded:
                g[k].add(path[0])
                base = D.parse(c.expanded[path[0]]) if isinstance(c.expanded[path[0]], str) else None
                if isinstance(base, ast.Name) and D.ref_of(base.id):
                    path = D.ref_of(base.id) + path[1:]
                elif isinstance(base, ast.Name):
                    path = [base.id] + path[1:]
                else:
                    rep.bad('resolves', w, '%s: the entry %s is not a group' % ('::'.join(path), path[0]))
                    continue
            grp = lib.get(path[:-1])
            how = D.resolves(grp if len(path) > 1 else lib, path[-1], c.flags)
            if how is None:
                rep.bad('resolves', w, 'no entry %s in the library' % '::'.join(path))
            else:
                rep.count('references resolved by ' + how)
    if os.path.basename(c.path) != 'standard_aggregation.yaml' or True:
        cyc = _cycle(g)
        if cyc:
            rep.bad('acyclic', '%s:%d %s' % (rel, D.line_of(c.path, cyc[0]), cyc[0]), 'circular reference %s' % ' -> '.join(cyc))
        else:
            rep.ok('acyclic', rel, 'config entries are acyclic')
