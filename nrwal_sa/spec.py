"""Conditional constant propagation with context-sensitive specialisation.

A function summary is recomputed with some parameters (texts, keys, dictionaries
of texts) bound to constants, everything else symbolic: guards that depend only
on the constants fold, calls on other constants are other contexts.  The
predicates on texts (is_num, ...) are folded from their own source in the same
way.  Nothing of the package is imported or executed."""
from .context import PREDICATES, SELF
from .engine import Engine
from .fold import Folder
from .mtbdd import T, F, leaf, is_leaf, leaves, bind, atoms_of, restrict, Node, atom, band, bnot
from . import terms as tm


class Spec:
    def __init__(self, ctx, budget=400, max_nodes=0):
        self.ctx, self.budget = ctx, budget
        self.memo = {}
        self.busy = set()
        self.preds = {}
        for q in PREDICATES:
            self.preds[q] = (lambda t, q=q: self.pred(q, t))
        self.runs = 0

    def pred(self, qual, t):
        """value Node of a text predicate on a constant (from its source), None if it does not fold"""
        if not (tm.is_const(t) and t[1] in ('str', 'int', 'float', 'bool', 'NoneType')):
            return None
        k = (qual, t)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        r = None
        try:
            cls, name = qual.split('.')
            f = self.ctx.prog.cls(cls).find(name)
            ps = [p for p in f.params() if p not in ('self', 'cls')]
            s = self.run(cls, name, {ps[0]: leaf(t)}, stop=[q for q in PREDICATES if q != qual])
            v = s.fz(s.ret)
            v = Folder({}).node(v)
            pc = Folder({}).node(s.pc)
            if is_leaf(v) and pc is T:
                x = v.leaf
                try:
                    py = tm.pyval(x[1]) if x[0] in ('sorted', 'setof') else tm.pyval(x)
                    if x[0] == 'sorted':
                        py = sorted(py)
                    r = leaf(tm.from_py(py))
                except Exception:
                    r = None
        except RecursionError:
            raise
        except Exception:
            r = None
        self.busy.discard(k)
        self.memo[k] = r
        return r

    @staticmethod
    def library(names):
        """assumption: retrieval by a constant key succeeds exactly for these names"""
        def hint(types, sig):
            ks = [t[2][2] for t in sig if t[0] == 'index' and tm.is_str_const(t[2])]
            if not ks or types is None or not set(types) & {'KeyError', 'LookupError', 'Exception', 'BaseException'}:
                return None
            return F if all(k in names for k in ks) else T
        return hint

    @staticmethod
    def equation_hint(t):
        """assumption: what is retrieved by a constant key is an equation, and so is arithmetic on it"""
        h = t[0]
        if h in ('dcopy', 'scopy'):
            return Spec.equation_hint(t[1])
        if h == 'new':
            return t[1] if t[1] == 'Equation' else None
        if h == 'bin':
            return 'Equation' if Spec.equation_hint(t[2]) or Spec.equation_hint(t[3]) else None
        if h == 'index' and tm.is_str_const(t[2]) and t[1][0] in ('attr', 'index'):
            return 'Equation'
        return None

    def run(self, cls, name, args, stop=None, hint=None, **kw):
        old, tm.HINT = tm.HINT, hint
        try:
            return self._run(cls, name, args, stop, **kw)
        finally:
            tm.HINT = old

    def _run(self, cls, name, args, stop=None, **kw):
        f = self.ctx.prog.func(cls, name) if cls and isinstance(name, str) else name
        st = list(PREDICATES if stop is None else stop)
        e = Engine(self.ctx.prog, stop=[q for q in st if q != f.qual], spec=self.budget, preds=self.preds, **dict({'unroll': 400}, **kw))
        self.runs += 1
        s = e.run(f, cls=self.ctx.prog.cls(cls) if cls else None, args=args)
        self.ctx.analysed.add((cls + '.' if cls else '') + f.name + ' (specialised)')
        return s
