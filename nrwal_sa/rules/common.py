"""Helpers shared by rules."""
import ast

from ..astq import walk_funcs, dotted, const_of, loc, fname
from ..program import Cls, Func
from ..mtbdd import leaves, is_leaf, leaf, bind, T, F, band, bor, bnot, restrict, atoms_of, cases
from .. import terms as tm
from ..context import SELF, entails, where, FLAGS, PREDICATES


def attr_stores(prog, attr):
    """AST sites (module, cls, fn, node, target) that store attribute `attr` of any object"""
    out = []
    for m, cls, fn, n in walk_funcs(prog):
        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append((m, cls, fn, n, 'store'))
        elif isinstance(n, ast.Call):
            d = dotted(prog, m, fn, n.func)
            if d in ('setattr', 'object.__setattr__', 'delattr') and len(n.args) >= 2:
                c = const_of(prog, m, fn, n.args[1])
                if c == attr or c is None:
                    out.append((m, cls, fn, n, 'setattr'))
            elif isinstance(n.func, ast.Attribute) and n.func.attr == '__setattr__' and n.args:
                c = const_of(prog, m, fn, n.args[0])
                if c == attr or c is None:
                    out.append((m, cls, fn, n, 'setattr'))
    return out


def find_func(prog, m, cls, fn):
    """Func object of an outermost function node"""
    if fn is None:
        return None
    pools = [m.funcs]
    if cls is not None:
        pools = [cls.methods, cls.setters] + pools
    for p in pools:
        for f in p.values():
            if f.node is fn:
                return f
    return None


def peel(t, names=('strip', 'lstrip', 'rstrip')):
    """text with harmless wrappers removed (str(), outer blanks)"""
    while True:
        if t[0] in ('str', 'dcopy', 'scopy'):
            t = t[1]
        elif t[0] == 'mcall' and t[2] in names and not t[3]:
            t = t[1]
        elif t[0] == 'call' and t[1] == 'compile' and t[2]:
            t = t[2][0]
        elif t[0] == 'fmt' and len(t[1]) == 1 and not isinstance(t[1][0], str):
            t = t[1][0]
        else:
            return t


def show(x, n=160):
    from ..mtbdd import tshow, show as nshow, BUDGET
    BUDGET[0] = 2 * n + 50
    try:
        s = nshow(x) if not isinstance(x, tuple) else tshow(x)
    finally:
        BUDGET[0] = None
    return s if len(s) <= n else s[:n] + '...'
