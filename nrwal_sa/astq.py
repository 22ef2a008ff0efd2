"""Queries over the resolved syntax tree."""
import ast

from .program import Cls, Func, Module

CANON = {'np': 'numpy', 'pd': 'pandas'}


def walk_funcs(prog):
    """(module, cls or None, outermost function node or None, node) for every AST node"""
    for m in prog.modules.values():
        yield from _walk(m, None, None, m.tree)


def _walk(m, cls, fn, node):
    for ch in ast.iter_child_nodes(node):
        c2, f2 = cls, fn
        if isinstance(ch, ast.ClassDef) and fn is None:
            c2 = m.classes.get(ch.name)
        elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn is None:
            f2 = ch
        yield m, c2 if isinstance(ch, ast.ClassDef) is False else cls, fn, ch
        yield from _walk(m, c2, f2, ch)


def fname(cls, fn):
    n = fn.name if fn is not None else '<module>'
    return (cls.name + '.' if cls else '') + n


def loc(m, cls, fn, node):
    return '%s:%s %s' % (m.rel, getattr(node, 'lineno', '?'), fname(cls, fn))


class Scope:
    """single-assignment local aliases of a function"""
    def __init__(self, fn):
        self.assigned = {}
        self.params = set()
        if fn is None:
            return
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            self.params.add(x.arg)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(n.value)
                    else:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                self.assigned.setdefault(y.id, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append(getattr(n, 'value', None) if not isinstance(n, ast.AugAssign) else None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for y in ast.walk(n.target):
                    if isinstance(y, ast.Name):
                        self.assigned.setdefault(y.id, []).append(None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for y in ast.walk(n.optional_vars):
                    if isinstance(y, ast.Name):
                        self.assigned.setdefault(y.id, []).append(None)


_scopes = {}


def scope(fn):
    k = id(fn)
    if k not in _scopes:
        _scopes[k] = (fn, Scope(fn))
    return _scopes[k][1]


def dotted(prog, m, fn, e, depth=0):
    """dotted external name of an expression ('os.path.join', 'eval'), a Func / Cls, or None"""
    if depth > 6:
        return None
    if isinstance(e, ast.Name):
        sc = scope(fn)
        if fn is not None and e.id in sc.params:
            return None
        if fn is not None and e.id in sc.assigned:
            vals = sc.assigned[e.id]
            if len(vals) == 1 and vals[0] is not None:
                return dotted(prog, m, fn, vals[0], depth + 1)
            return None
        r = prog.resolve_name(m, e.id)
        if r is None:
            return e.id
        if isinstance(r, (Func, Cls, Module)):
            return r
        if r[0] == 'ext':
            return canon(r[1])
        if r[0] == 'const':
            vals = r[1].assigns.get(r[2], [])
            if len(vals) == 1 and vals[0] is not None:
                return dotted(prog, r[1], None, vals[0], depth + 1)
        return None
    if isinstance(e, ast.Attribute):
        b = dotted(prog, m, fn, e.value, depth + 1)
        if isinstance(b, Module):
            r = prog.resolve_name(b, e.attr)
            if isinstance(r, tuple) and r[0] == 'ext':
                return canon(r[1])
            return r if isinstance(r, (Func, Cls, Module)) else None
        if isinstance(b, Cls):
            return b.find(e.attr)
        if isinstance(b, str):
            return canon(b + '.' + e.attr)
        return None
    if isinstance(e, ast.Call):
        n = dotted(prog, m, fn, e.func, depth + 1)
        if n == 'getattr' and len(e.args) >= 2:
            b = dotted(prog, m, fn, e.args[0], depth + 1)
            if isinstance(b, str):
                if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                    return canon(b + '.' + e.args[1].value)
                return b + '.<dynamic>'
        if n in ('__import__', 'importlib.import_module') and e.args and isinstance(e.args[0], ast.Constant):
            return str(e.args[0].value)
    return None


def canon(d):
    h = d.split('.')[0]
    if h in CANON:
        d = CANON[h] + d[len(h):]
    if d.startswith('builtins.'):
        d = d[9:]
    if d.startswith('__builtins__.'):
        d = d[13:]
    if d.startswith('posixpath.'):
        d = 'os.path.' + d[10:]
    return d


def const_of(prog, m, fn, e, depth=0):
    """python constant of an expression or None"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name) and depth < 5:
        sc = scope(fn)
        if fn is not None and e.id in sc.assigned and e.id not in sc.params:
            vals = sc.assigned[e.id]
            if len(vals) == 1 and vals[0] is not None:
                return const_of(prog, m, fn, vals[0], depth + 1)
            return None
        if fn is not None and e.id in sc.params:
            return None
        r = prog.resolve_name(m, e.id)
        if isinstance(r, tuple) and r[0] == 'const':
            vals = r[1].assigns.get(r[2], [])
            if len(vals) == 1 and vals[0] is not None:
                return const_of(prog, r[1], None, vals[0], depth + 1)
    return None


# -- control flow: does a block always raise? -----------------------------------
class Raises:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def func(self, f):
        k = id(f.node)
        if k not in self.memo:
            self.memo[k] = False
            self.memo[k] = self.block(f.node.body, f.module, f.cls, f.node)
        return self.memo[k]

    def call_raises(self, e, m, cls, fn):
        """expression is a call of a package function that never returns normally"""
        if not isinstance(e, ast.Call):
            return False
        t = dotted(self.prog, m, fn, e.func)
        if isinstance(t, Func):
            return self.func(t)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and cls is not None \
                and e.func.value.id in ('self', 'cls'):
            f = cls.find(e.func.attr)
            if f is not None and f.kind in ('method', 'static', 'class'):
                return self.func(f)
        if isinstance(e.func, ast.Name) and fn is not None:
            for n in ast.walk(fn):
                if isinstance(n, ast.FunctionDef) and n is not fn and n.name == e.func.id:
                    return self.block(n.body, m, cls, n)
        return False

    def block(self, stmts, m, cls, fn):
        """True when every path through stmts ends in an exception"""
        for s in stmts:
            r = self.stmt(s, m, cls, fn)
            if r == 'raise':
                return True
            if r == 'escape':
                return False
        return False

    def stmt(self, s, m, cls, fn):
        """'raise' | 'escape' (may leave the block normally) | None (falls through)"""
        if isinstance(s, ast.Raise):
            return 'raise'
        if isinstance(s, ast.Return):
            return 'raise' if s.value is not None and self.call_raises(s.value, m, cls, fn) else 'escape'
        if isinstance(s, (ast.Break, ast.Continue)):
            return 'escape'
        if isinstance(s, (ast.Expr, ast.Assign)):
            return 'raise' if self.call_raises(s.value, m, cls, fn) else None
        if isinstance(s, ast.Assert):
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return 'raise'
            return None
        if isinstance(s, ast.If):
            a = self.seq(s.body, m, cls, fn)
            b = self.seq(s.orelse, m, cls, fn)
            if a == b == 'raise':
                return 'raise'
            if 'escape' in (a, b):
                return 'escape'
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.seq(s.body, m, cls, fn)
        if isinstance(s, (ast.For, ast.While)):
            for n in ast.walk(s):
                if isinstance(n, ast.Return):
                    return 'escape'
            return None
        if isinstance(s, ast.Try):
            if s.finalbody and self.seq(s.finalbody, m, cls, fn) == 'raise':
                return 'raise'
            b = self.seq(s.body, m, cls, fn)
            hs = [self.seq(h.body, m, cls, fn) for h in s.handlers]
            if b == 'raise' and all(h == 'raise' for h in hs):
                return 'raise'
            if b == 'escape' or 'escape' in hs:
                return 'escape'
            return None
        return None

    def seq(self, stmts, m, cls, fn):
        for s in stmts:
            r = self.stmt(s, m, cls, fn)
            if r:
                return r
        return None
