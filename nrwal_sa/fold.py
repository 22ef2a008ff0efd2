"""Constant folding of summaries over representative operands.

A summary (decision diagram over terms) is specialised by substituting constants for
chosen terms; predicates of the package whose meaning has been established separately
are folded with that meaning."""
from .mtbdd import T, F, ite, leaf, is_leaf, bind, leaves, atoms_of, atom_term, Node, band, bnot
from . import terms as tm


def py_is_num(v):
    try:
        float(str(v))
        return True
    except ValueError:
        return False


def is_num_of(t):
    """argument of an Equation.is_num call term"""
    if t[0] == 'call' and t[1] == 'Equation.is_num' and t[2]:
        return t[2][-1]
    return None


class Folder:
    def __init__(self, m, preds=None):
        self.m = dict(m)
        self.preds = preds or {}
        self.memo = {}

    def node(self, v):
        """diagram with everything foldable folded"""
        v = tm.subst(v, self.m)
        for _ in range(4):
            w = self._fold(v, {})
            w = tm.subst(w, {})
            if w is v:
                return w
            v = w
        return v

    def _fold(self, v, memo):
        if v.nid in memo:
            return memo[v.nid]
        if v.var is None:
            r = leaf(self.term(v.leaf))
        else:
            g = self.atom(atom_term(v.var))
            hi, lo = self._fold(v.hi, memo), self._fold(v.lo, memo)
            if g is True:
                r = hi
            elif g is False:
                r = lo
            else:
                r = ite(tm.truth(leaf(atom_term(v.var))) if False else _atomnode(v.var), hi, lo)
        memo[v.nid] = r
        return r

    def term(self, t):
        return t

    def atom(self, a):
        """True / False / None"""
        if a[0] == 'truth':
            t = a[1]
            if t[0] == 'call' and t[1] in self.preds and t[2] and tm.is_const(t[2][-1]):
                return self.preds[t[1]](t[2][-1][2])
            if t[0] == 'call' and t[1] in ('Equation.is_num', 'Equation.is_variable', 'Equation.is_equation') and t[2] and tm.is_const(t[2][-1]):
                if t[1] == 'Equation.is_num':
                    return py_is_num(t[2][-1][2])
        if a[0] == 'raises':
            return _raises(a)
        return None


def _atomnode(var):
    from .mtbdd import atom
    return atom(atom_term(var))


def _raises(a):
    """raises((Exc, ..), (terms that may raise, ..)) when every term is a folded constant or a failed number conversion"""
    types = a[1]
    for x in a[2]:
        if tm.is_const(x) or x[0] in ('str',) and tm.is_const(x[1]):
            continue
        if x[0] == 'call' and x[1] in ('float', 'int') and len(x[2]) == 1:
            y = x[2][0]
            if y[0] == 'str' and tm.is_const(y[1]):
                y = tm.const(str(y[1][2]))
            if not tm.is_const(y):
                return None
            try:
                {'float': float, 'int': int}[x[1]](y[2])
            except ValueError:
                return bool({'ValueError', 'Exception', 'BaseException'} & set(types))
            except TypeError:
                return bool({'TypeError', 'Exception', 'BaseException'} & set(types))
            continue
        return None
    return False


def predicate(ctx, cls, name):
    """constant -> True / False / None, by specialising the summary of a one-argument predicate"""
    s = ctx.run(cls, name)
    ps = [p for p in s.func.params() if p not in ('self', 'cls')]
    arg = ('param', ps[0])
    ret = tm.truth(s.fz(s.ret))
    memo = {}

    def f(v):
        k = (type(v), v)
        if k not in memo:
            memo[k] = None
            m = {arg: tm.const(v)}
            r = Folder(m, {'Equation.is_num': f} if name != 'is_num' and False else {}).node(ret)
            memo[k] = True if r is T else False if r is F else None
        return memo[k]
    return f
