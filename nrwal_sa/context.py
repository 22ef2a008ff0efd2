"""Shared services for the rules: cached value-flow summaries and the roles
of private attributes, discovered from the public API."""
import ast

from .program import Program, AnalysisError, Func
from .engine import Engine
from .mtbdd import leaves, is_leaf, leaf, bind, T, F, band, bor, bnot, restrict, atoms_of, cases
from . import terms as tm

SELF = ('param', 'self')
PREDICATES = ('Equation.is_num', 'Equation.is_variable', 'Equation.is_method', 'Equation.is_equation',
              'Equation.parse_variables')
FLAGS = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year', 'use_nearest_year')


class Context:
    def __init__(self, repo, tier='quick'):
        self.repo, self.tier = repo, tier
        self.prog = Program(repo)
        self.cache = {}
        self.analysed = set()
        self.n_events = 0

    def run(self, cls, name, setter=False, stop=PREDICATES, func=None, **kw):
        key = (cls, name, setter, tuple(stop), tuple(sorted(kw)))
        if key in self.cache:
            return self.cache[key]
        f = func or self.prog.func(cls, name, setter)
        s = self.run_func(f, self.prog.cls(cls) if cls else None, stop, **kw)
        self.cache[key] = s
        return s

    def run_func(self, f, cls=None, stop=PREDICATES, **kw):
        e = Engine(self.prog, stop=[q for q in stop if q != f.qual], **kw)
        s = e.run(f, cls=cls)
        self.analysed.add((cls.name + '.' if cls else '') + f.qual)
        for ev in s.events:
            if ev.kind == 'inline':
                self.analysed.add(ev.name)
        self.n_events += len(s.events)
        return s

    def config_stop(self):
        """the recursive expression parser of the config: kept opaque when only the constructor is of interest"""
        if not hasattr(self, '_cstop'):
            c = self.prog.cls('NrwalConfig')
            g, makes = {}, set()
            for n, f in c.methods.items():
                g[n] = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)} & set(c.methods)
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'Equation' for x in ast.walk(f.node)):
                    makes.add(n)

            def reach(n):
                seen, todo = set(), list(g[n])
                while todo:
                    k = todo.pop()
                    if k not in seen:
                        seen.add(k)
                        todo += g[k]
                return seen
            rec = {n for n in g if n in reach(n)}
            self._cstop = tuple(PREDICATES) + tuple(sorted('NrwalConfig.' + n for n in rec if (reach(n) | {n}) & makes))
        return self._cstop

    # roles ---------------------------------------------------------------
    def returned_attr(self, cls, name):
        """private attribute returned by a public property / method"""
        f = self.prog.cls(cls).find(name)
        if f is None:
            raise AnalysisError('%s.%s not found' % (cls, name))
        s = self.run(cls, name)
        r = tm.val(s.fz(s.ret))
        for t in leaves(r):
            while t[0] in ('view', 'str', 'scopy', 'dcopy'):
                t = t[2] if t[0] == 'view' else t[1]
            if t[0] == 'dict' and len(t[1]) == 1 and t[1][0][0] == 'upd' and is_leaf(t[1][0][3]):
                t = t[1][0][3].leaf
            if t[0] == 'attr' and t[1] == SELF:
                return t[2]
        return None

    @property
    def eqn_attr(self):
        a = self.returned_attr('Equation', 'full')
        if a is None:
            raise AnalysisError('Equation.full does not return an attribute')
        return a

    def def_attr(self, cls):
        return self.returned_attr(cls, 'default_variables')

    def store_attr(self, cls):
        return self.returned_attr(cls, 'keys')

    def classes(self):
        out = []
        for m in self.prog.modules.values():
            out += list(m.classes.values())
        return out

    def methods(self, *clsnames):
        """(class, function) pairs of every method, property and setter, incl. inherited ones"""
        out = []
        for cn in clsnames:
            c = self.prog.cls(cn)
            seen = set()
            for k in c.mro:
                for n, f in list(k.methods.items()) + [(n + '=', f) for n, f in k.setters.items()]:
                    if n in seen:
                        continue
                    seen.add(n)
                    out.append((c, f))
        return out


def entails(pc, g):
    """pc implies g (propositionally)"""
    return band(pc, bnot(g)) is F


def where(f, node=None):
    return '%s:%s %s' % (f.module.rel, getattr(node, 'lineno', f.node.lineno) if node is not None else f.node.lineno, f.qual)
