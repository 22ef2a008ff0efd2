"""Ownership analysis: which objects a function may mutate, store or return.

A flow-sensitive points-to analysis over the syntax tree with access paths.
Objects are abstracted as nodes

  ('r', root, path)   the object reached from a root by a path of selectors
                      ('.', attr) and '[]'; roots: ('self',), ('arg', name),
                      ('kw', name), ('var', name), ('glob', module, name),
                      ('cls', class, name), ('dflt', function, name) and
                      ('fresh', site) (deep copies and unknown new objects)
  ('a', site, kind)   objects allocated by the code under analysis
  ('f', Func, bound, cls) / ('c', Cls) / ('x', dotted) / ('m', node, name) /
  ('l', id) / ('pt', id)  callables and modules

Local variables get strong updates, attributes too when the receiver is one
node; elements are updated weakly.  Package functions are inlined (every
function at most twice in one call stack), external ones are described by
tables; an external call not in the tables yields a fresh object.
"""
import ast

from .program import Func, Cls, Module
from .astq import dotted

E = frozenset()
MAXPATH = 5
CTX = 1
MAXDEPTH = 9
OPDEPTH = 3

MUTATORS = {'update', 'append', 'extend', 'insert', 'add', 'pop', 'popitem', 'remove', 'discard', 'clear', 'setdefault', 'sort', 'reverse',
            'move_to_end', 'fill', 'resize', 'put', 'itemset', 'partition', 'setflags', 'setfield', '__setitem__', '__delitem__', '__setattr__',
            '__delattr__', '__iadd__', '__imul__', '__isub__', '__itruediv__', '__ior__', 'appendleft', 'popleft', 'extendleft', 'rotate',
            'intersection_update', 'difference_update', 'symmetric_difference_update'}
ELEMENTS = {'get', 'pop', 'setdefault', '__getitem__', 'popitem', 'popleft', 'xs', 'item'}
ITERS = {'values', 'elements'}
BUILTIN_METHODS = MUTATORS | ELEMENTS | ITERS | {'items', 'keys', 'copy', 'astype', 'flatten', 'ravel', 'reshape', 'view', 'squeeze', 'transpose',
                                                'format', 'join', 'split', 'strip', 'replace', 'startswith', 'endswith', 'count', 'index', 'lower', 'upper',
                                                'lstrip', 'rstrip', 'partition', 'rpartition', 'tolist', 'to_dict', 'any', 'all', 'sum', 'min', 'max'}
VIEW_ATTRS = {'values', 'T', 'flat', 'loc', 'iloc', 'at', 'iat', 'real', 'base', 'array', 'data'}
VIEW_METHODS = {'ravel', 'reshape', 'view', 'squeeze', 'transpose', 'swapaxes', '__iter__', 'to_numpy', 'set_index_view', 'diagonal', '__enter__'}
VIEW_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.atleast_2d',
              'numpy.atleast_3d', 'numpy.transpose', 'numpy.broadcast_to', 'numpy.require', 'numpy.ascontiguousarray', 'typing.cast', 'iter', 'reversed',
              'types.MappingProxyType', 'weakref.proxy', 'memoryview', 'numpy.swapaxes', 'numpy.expand_dims', 'numpy.real', 'vars'}
SHALLOW_FUNCS = {'dict', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'collections.OrderedDict', 'collections.deque', 'collections.Counter',
                 'collections.UserDict', 'collections.ChainMap', 'copy.copy', 'itertools.chain', 'filter', 'itertools.chain.from_iterable', 'next', 'itertools.islice'}
MUT_FUNCS = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'random.shuffle': 0,
             'numpy.random.shuffle': 0, 'setattr': 0, 'delattr': 0, 'object.__setattr__': 0, 'object.__delattr__': 0, 'dict.update': 0, 'list.append': 0,
             'list.extend': 0, 'list.sort': 0, 'dict.pop': 0, 'dict.setdefault': 0, 'dict.clear': 0, 'dict.__setitem__': 0, 'operator.setitem': 0,
             'operator.delitem': 0, 'operator.iadd': 0, 'operator.imul': 0, 'operator.isub': 0, 'operator.itruediv': 0, 'operator.ior': 0,
             'operator.iconcat': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0, 'heapq.heapify': 0, 'heapq.heappush': 0,
             'heapq.heappop': 0, 'bisect.insort': 0, 'set.add': 0, 'set.update': 0}
SCALAR_TYPES = {'str', 'int', 'float', 'bool', 'bytes', 'complex', 'NoneType', 'tuple0'}
SCALAR_MODULES = ('os.path.', 'os.sep', 're.sub', 're.escape', 're.match', 're.search', 'math.', 'logging.', 'warnings.', 'time.', 'uuid.', 'hashlib.', 'os.getcwd', 'os.listdir')
TEXT_METHODS = {'format', 'join', 'strip', 'replace', 'startswith', 'endswith', 'count', 'index', 'lower', 'upper', 'lstrip', 'rstrip',
                'any', 'all', 'sum', 'error', 'info', 'debug', 'warning', 'exception', 'find', 'rfind', 'isdigit', 'title'}
OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.BitOr: 'or', ast.BitAnd: 'and'}
OPFUNCS = {'operator.add': 'add', 'operator.sub': 'sub', 'operator.mul': 'mul', 'operator.truediv': 'truediv', 'operator.pow': 'pow',
           'operator.concat': 'add', 'operator.or_': 'or'}


class State:
    __slots__ = ('env', 'heap')

    def __init__(self, env=None, heap=None):
        self.env, self.heap = env or {}, heap or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap))


class Mut:
    def __init__(self, node, op, where, func, entry, deep):
        self.node, self.op, self.where, self.func, self.entry, self.deep = node, op, where, func, entry, deep

    def __repr__(self):
        return '%s %s at %s' % (show(self.node), self.op, self.where)


def show(n):
    if n[0] == 'r':
        root = n[1]
        s = {'self': 'self', 'fresh': '<new>'}.get(root[0])
        if s is None:
            s = {'arg': '%s', 'kw': '**%s', 'var': '*%s', 'dflt': 'default of %s'}.get(root[0], '%s') % root[-1]
        for sel in n[2]:
            s += '.' + sel[1] if isinstance(sel, tuple) else '[...]'
        return s
    if n[0] == 'a':
        return '<new %s>' % n[2]
    return str(n[0])


class Frame:
    def __init__(self, func, cls, selfn, ctxt, outer=None):
        self.func, self.cls, self.selfn, self.ctxt, self.outer = func, cls, selfn, ctxt, outer
        self.returns = []
        self.loops = []
        self.yields = E
        self.globals = set()


class Result:
    """what one entry point does"""
    def __init__(self):
        self.ret, self.state, self.muts, self.cls, self.func, self.own = E, None, [], None, None, None

    def get(self, node, sel):
        return self.own.get(self.state, node, sel)

    def reach(self, nodes, depth=4):
        """(path, node) pairs reachable from nodes through explicit heap entries"""
        seen, out, todo = set(), [], [((), n) for n in nodes]
        while todo:
            p, n = todo.pop()
            if (n, p[-3:]) in seen or n[0] not in ('r', 'a', 'it'):
                continue
            seen.add((n, p[-3:]))
            out.append((p, n))
            if len(p) >= depth:
                continue
            if n[0] == 'it':
                for m in self.own.get(self.state, n, '[]'):
                    todo.append((p, m))
                continue
            for sel in self.own.sels(self.state, n):
                for m in self.own.get(self.state, n, sel):
                    todo.append((p + ('[]' if isinstance(sel, int) else sel,), m))
        return out


class Own:
    def __init__(self, prog):
        self.prog = prog
        self.results = {}
        self.inlined = set()
        self.calls = 0
        self._cand_cache = {}

    # -- entry -----------------------------------------------------------
    def run(self, func, cls=None):
        key = (func.qual, cls.name if cls else None)
        if key in self.results:
            return self.results[key]
        self.muts, self.stack, self.ncls, self.lams, self.cur = [], [], {}, {}, None
        self.budget = 30000
        self.cut = False
        self.copies = {}
        r = Result()
        r.cls, r.func, r.own = cls, func, self
        self.entry = func
        st = State()
        a = func.node.args
        args = {}
        selfn = E
        names = a.posonlyargs + a.args
        bound = func.kind in ('method', 'property', 'setter', 'other') and cls is not None
        for i, x in enumerate(names + a.kwonlyargs):
            if i == 0 and bound and names:
                n = ('r', ('self',), ())
                self.ncls[n] = cls
                selfn = frozenset([n])
                args[x.arg] = selfn
            elif i == 0 and func.kind == 'class':
                args[x.arg] = frozenset([('c', cls)])
            else:
                args[x.arg] = frozenset([('r', ('arg', x.arg), ())])
        for p, d in self._defaults(func):
            n = ('r', ('dflt', func.qual, p), ())
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
                args[p] = args.get(p, E) | frozenset([n])
        if a.vararg:
            n = ('a', ('var', a.vararg.arg), 'tuple')
            st.heap[(n, '[]')] = frozenset([('r', ('var', a.vararg.arg), ())])
            args[a.vararg.arg] = frozenset([n])
        if a.kwarg:
            n = ('a', ('kw', a.kwarg.arg), 'dict')
            st.heap[(n, '[]')] = frozenset([('r', ('kw', a.kwarg.arg), ())])
            args[a.kwarg.arg] = frozenset([n])
        fr = Frame(func, cls, selfn, ())
        self.stack.append(func)
        st.env = args
        self.rec, self.memo = {}, {}
        for _ in range(4):
            before = dict(self.rec)
            self.muts, self.memo = [], {}
            self.hit = False
            fr.returns, fr.loops = [], []
            end = self._body(func.node, st.copy(), fr)
            outs = list(fr.returns)
            if end is not None:
                outs.append((E, end))
            r.ret = E
            for v, s in outs:
                r.ret |= v
            self.rec[(func, cls)] = self.rec.get((func, cls), E) | r.ret
            if not self.hit or before == self.rec:
                break
        self.stack.pop()
        r.state = self._joinall([s for _, s in outs]) or State()
        r.muts = self.muts
        r.cut = self.cut
        r.ncls = self.ncls
        self.results[key] = r
        return r

    @staticmethod
    def _defaults(func):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        out += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        return out

    # -- heap ------------------------------------------------------------
    def sels(self, st, n):
        out = [s for (m, s) in st.heap if m == n and s != '@base']
        if (n, '@base') in st.heap:
            for b in st.heap[(n, '@base')]:
                if b[0] == 'r':
                    out.append('[]')
                for s in self.sels(st, b):
                    if s not in out:
                        out.append(s)
        return out

    def initial(self, st, n, sel, seen=()):
        if n[0] == 'r':
            if isinstance(sel, int):
                sel = '[]'
            if len(n[2]) >= (MAXPATH if n[1][0] != 'fresh' else 2):
                return frozenset([n])
            return frozenset([('r', n[1], n[2] + (sel,))])
        b = st.heap.get((n, '@base'), E)
        if b and n not in seen:
            out = E
            for x in b:
                out |= self.get(st, x, sel, seen + (n,))
            return out
        return E

    def get(self, st, n, sel, seen=()):
        if n[0] == 'it':
            # ('it', 'values'|'items'|'enum'|'pair1', sources): iterators and the pairs they yield
            if n[1] == 'values':
                return self.elems(st, n[2])
            if n[1] in ('items', 'enum'):
                return frozenset([('it', 'pair' if n[1] == 'items' else 'epair', n[2])])
            if n[1] == 'pair':
                return self.elems(st, n[2]) if sel in (1, '[]') else E
            if n[1] == 'epair':
                return self.iterate(n[2], st, None, None) if sel in (1, '[]') else E
        if n[0] not in ('r', 'a'):
            return E
        if isinstance(sel, int) and n[0] == 'r':
            sel = '[]'
        out = st.heap.get((n, sel))
        if out is None:
            out = self.initial(st, n, sel, seen)
        if isinstance(sel, int):
            out |= st.heap.get((n, '[]'), E)
        elif sel == '[]' and n[0] == 'a':
            i = 0
            while (n, i) in st.heap:
                out |= st.heap[(n, i)]
                i += 1
        return out

    def elems(self, st, nodes, sel='[]'):
        out = E
        for n in nodes:
            out |= self.get(st, n, sel)
        return out

    def add(self, st, n, sel, vals):
        cur = st.heap.get((n, sel))
        if cur is None:
            cur = self.initial(st, n, sel)
        st.heap[(n, sel)] = self.norm(cur | vals)

    def norm(self, vals):
        """large sets: new objects of unknown class are all alike"""
        if len(vals) <= 16:
            return vals
        keep = frozenset(n for n in vals if not (n[0] == 'r' and n[1][0] == 'fresh' and n not in self.ncls))
        return keep | frozenset([('r', ('fresh', 'many'), ())]) if len(keep) < len(vals) else vals

    def new(self, node, kind, fr, elems=None, st=None, cls=None):
        n = ('a', (self._site(node), fr.ctxt[-CTX:]), kind)
        if cls is not None:
            self.ncls[n] = cls
        if elems:
            self.add(st, n, '[]', elems)
        return n

    @staticmethod
    def _site(node):
        return (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), getattr(node, 'end_col_offset', 0))

    def fresh(self, node, fr, cls=None, tag=''):
        n = ('r', ('fresh', (self._site(node), tag)), ())
        if cls is not None:
            self.ncls[n] = cls
        return n

    def mutate(self, nodes, op, node, fr, deep=False):
        for n in nodes:
            if n[0] == 'r' and n[1][0] != 'fresh':
                w = '%s:%s %s' % (fr.func.module.rel, getattr(node, 'lineno', fr.func.node.lineno), fr.func.qual)
                self.muts.append(Mut(n, op, w, fr.func, self.entry, deep))

    def _join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            if isinstance(k, tuple):        # class hints hold only if they hold on both sides
                if k in a.env and k in b.env:
                    env[k] = a.env[k] | b.env[k]
                continue
            env[k] = self.norm(a.env.get(k, E) | b.env.get(k, E))
        heap = a.heap
        if a.heap is not b.heap:
            heap = dict(a.heap)
            diff = a.heap.items() ^ b.heap.items()
            for k in {k for k, _ in diff}:
                x, y = a.heap.get(k), b.heap.get(k)
                if k[1] == '@base':
                    heap[k] = (x or E) | (y or E)
                    continue
                if x is None:
                    x = self.initial(a, *k) if k[0][0] == 'r' or (k[0], '@base') in a.heap else E
                if y is None:
                    y = self.initial(b, *k) if k[0][0] == 'r' or (k[0], '@base') in b.heap else E
                heap[k] = self.norm(x | y)
        return State(env, heap)

    def _joinall(self, xs):
        out = None
        for x in xs:
            out = self._join(out, x)
        return out

    # -- statements ------------------------------------------------------
    def _body(self, fnode, st, fr):
        if isinstance(fnode, ast.Lambda):
            fr.returns.append((self.ev(fnode.body, st, fr), st))
            return None
        return self._block(fnode.body, st, fr)

    def _block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self._stmt(s, st, fr)
        return st

    def _stmt(self, s, st, fr):
        k = type(s).__name__
        m = getattr(self, '_s_' + k, None)
        if m is None:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ev(e, st, fr)
            return st
        return m(s, st, fr)

    def _s_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def _s_Pass(self, s, st, fr):
        return st

    def _s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def _s_FunctionDef(self, s, st, fr):
        st.env[s.name] = frozenset([self._closure(s, fr)])
        return st

    def _closure(self, node, fr):
        i = ('l', self._site(node), fr.func.module.name)
        self.lams[i] = (node, fr)
        return i

    def _s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else E
        fr.returns.append((v, st))
        return None

    def _s_Raise(self, s, st, fr):
        if s.exc is not None:
            self.ev(s.exc, st, fr)
        return None

    def _s_Assert(self, s, st, fr):
        self.ev(s.test, st, fr)
        return self._narrow(s.test, st, fr, True)

    def _s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self._assign(t, v, st, fr, s.value)
        return st

    def _s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self._assign(s.target, self.ev(s.value, st, fr), st, fr, s.value)
        return st

    def _assign(self, t, v, st, fr, src=None):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.mutate([('r', ('glob', fr.func.module.name, t.id), ())], 'rebound', t, fr)
            st.env[t.id] = v
            st.env.pop(('%', t.id), None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in src.elts + t.elts):
                vals = [self.elems(st, v, i) for i in range(len(t.elts))]
                for x, y in zip(t.elts, vals):
                    self._assign(x, y, st, fr)
                return
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    n = self.new(x, 'list', fr, self.elems(st, v), st)
                    self._assign(x.value, frozenset([n]), st, fr)
                else:
                    self._assign(x, self.elems(st, v, i), st, fr)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, st, fr)
            self._setattr(r, t.attr, v, t, st, fr)
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, st, fr)
            self.ev(t.slice, st, fr)
            self._setitem(r, v, t, st, fr)
        elif isinstance(t, ast.Starred):
            self._assign(t.value, v, st, fr)

    def _setattr(self, r, attr, v, node, st, fr, op=None):
        rest = []
        for c, ns in self.grouped(r):
            if c is not None:
                f = c.find_setter(attr)
                if f is not None:
                    self.call_func(f, c, ns, [v], {}, node, st, fr)
                else:
                    rest += list(ns)
                continue
            objs = frozenset(n for n in ns if n[0] in ('r', 'a'))
            fs = [(x.setters[attr], x) for x in self._classes() if attr in x.setters]
            if fs and objs:
                for f, k in fs:
                    self.call_func(f, k, objs, [v], {}, node, st, fr)
            else:
                rest += list(objs)
            for n in ns - objs:
                if n[0] == 'c':
                    self.mutate([('r', ('cls', n[1].name, attr), ())], 'rebound', node, fr)
                elif n[0] == 'x':
                    self.mutate([('r', ('glob', n[1], attr), ())], 'rebound', node, fr)
                elif n[0] == 'f':
                    self.mutate([('r', ('glob', n[1].module.name, n[1].qual + '.' + attr), ())], 'rebound', node, fr)
                elif n[0] == 'mod':
                    self.mutate([('r', ('glob', n[1].name, attr), ())], 'rebound', node, fr)
        attr = self._mangle(attr, fr)
        if rest:
            self.mutate(rest, op or 'attribute %s set' % attr, node, fr)
        for n in rest:
            if len(r) == 1:
                st.heap[(n, ('.', attr))] = v
            else:
                self.add(st, n, ('.', attr), v)

    def _setitem(self, r, v, node, st, fr, op='item assigned'):
        for n in r:
            c = self.ncls.get(n)
            f = c.find('__setitem__') if c else None
            if f is not None:
                self.call_func(f, c, frozenset([n]), [E, v], {}, node, st, fr)
                continue
            self.mutate([n], op, node, fr)
            if n[0] in ('r', 'a'):
                self.add(st, n, '[]', v)

    def _s_AugAssign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        t = s.target
        cur = self.ev(t, st, fr)
        scalar = self._scalar(s.value, st, fr)
        if cur and not scalar:
            for n in cur:
                c = self.ncls.get(n)
                name = '__i%s__' % OPS.get(type(s.op), '?')
                f = c.find(name) if c else None
                if f is not None:
                    self.call_func(f, c, frozenset([n]), [v], {}, s, st, fr)
                elif c is None:
                    self.mutate([n], 'in-place operator', s, fr)
                    if n[0] == 'a':
                        self.add(st, n, '[]', self.elems(st, v))
        out = cur if not scalar else E
        if any(self.ncls.get(n) is not None for n in cur):
            out = self._binop(cur, v, OPS.get(type(s.op)), s, st, fr)
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.mutate([('r', ('glob', fr.func.module.name, t.id), ())], 'rebound', t, fr)
            st.env[t.id] = out
        elif isinstance(t, ast.Subscript):
            self._setitem(self.ev(t.value, st, fr), out, t, st, fr)
        elif isinstance(t, ast.Attribute):
            self._setattr(self.ev(t.value, st, fr), t.attr, out, t, st, fr)
        return st

    def _scalar(self, e, st, fr):
        """the expression is evidently text"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (str, bytes))
        if isinstance(e, ast.JoinedStr):
            return True
        if isinstance(e, ast.BinOp):
            return self._scalar(e.left, st, fr) or self._scalar(e.right, st, fr)
        if isinstance(e, ast.IfExp):
            return self._scalar(e.body, st, fr) or self._scalar(e.orelse, st, fr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr', 'len', 'bool', 'ord', 'chr', 'isinstance'):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join', 'lower', 'upper', 'strip', 'lstrip', 'rstrip'):
                return True
        return False

    def _s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                r = self.ev(t.value, st, fr)
                self.ev(t.slice, st, fr)
                self.mutate(r, 'item deleted', t, fr)
            elif isinstance(t, ast.Attribute):
                self.mutate(self.ev(t.value, st, fr), 'attribute deleted', t, fr)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def _s_If(self, s, st, fr):
        self.ev(s.test, st, fr)
        a = self._block(s.body, self._narrow(s.test, st.copy(), fr, True), fr)
        b = self._block(s.orelse, self._narrow(s.test, st.copy(), fr, False), fr)
        return self._join(a, b)

    def _narrow(self, test, st, fr, truth):
        if st is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self._narrow(test.operand, st, fr, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    st = self._narrow(v, st, fr, truth)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if isinstance(test.left, ast.Name) and test.left.id in st.env and isnone == truth:
                st.env[test.left.id] = E
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            names = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            ts = [n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else '?' for n in names]
            tgt = test.args[0]
            if truth and all(t in SCALAR_TYPES for t in ts) and isinstance(tgt, ast.Name) and tgt.id in st.env:
                st.env[tgt.id] = E
            classes = [self.prog.resolve_expr(fr.func.module, n) for n in names]
            if isinstance(tgt, ast.Name) and tgt.id in st.env:
                cur = st.env[tgt.id]
                known = {n: self.ncls.get(n) for n in cur}
                pk = [c for c in classes if isinstance(c, Cls)]
                if truth and len(pk) == len(names):
                    st.env[('%', tgt.id)] = frozenset(pk)
                    st.env[tgt.id] = frozenset(n for n in cur if known[n] is None or any(c in known[n].mro for c in pk))
                elif not truth:
                    st.env[tgt.id] = frozenset(n for n in cur if known[n] is None or not any(c in known[n].mro for c in pk))
        return st

    def _loop(self, s, st, fr, bind):
        fr.loops.append([[], []])
        cur, out = st, None
        for _ in range(4):
            b = cur.copy()
            bind(b)
            fr.loops[-1][1] = []
            b = self._block(s.body, b, fr)
            b = self._joinall([b] + fr.loops[-1][1])
            nxt = self._join(cur, b)
            if nxt is cur or (nxt.env == cur.env and nxt.heap == cur.heap):
                cur = nxt
                break
            cur = nxt
        brk = fr.loops.pop()[0]
        end = self._block(s.orelse, cur.copy(), fr)
        return self._joinall([end] + brk)

    def _s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def bind(b):
            self._assign(s.target, self.iterate(it, b, s, fr), b, fr)
        return self._loop(s, st, fr, bind)

    _s_AsyncFor = _s_For

    def iterate(self, it, st, node, fr):
        out = E
        for n in it:
            c = self.ncls.get(n)
            f = c.find('__iter__') if c else None
            if f is not None:
                r = self.call_func(f, c, frozenset([n]), [], {}, node, st, fr)
                out |= self.elems(st, r)
            elif n[0] == 'a' and n[2] == 'dict' or n[0] == 'r' and n[1][0] == 'dictlike':
                pass
            else:
                out |= self.get(st, n, '[]')
        return out

    def _s_While(self, s, st, fr):
        self.ev(s.test, st, fr)

        def bind(b):
            self.ev(s.test, b, fr)
        r = self._loop(s, st, fr, bind)
        return r

    def _s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def _s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def _s_With(self, s, st, fr):
        for i in s.items:
            v = self.ev(i.context_expr, st, fr)
            if i.optional_vars is not None:
                self._assign(i.optional_vars, v, st, fr)
        return self._block(s.body, st, fr)

    _s_AsyncWith = _s_With

    def _s_Try(self, s, st, fr):
        pre = st.copy()
        mids = [pre]
        cur = st
        for x in s.body:
            if cur is None:
                break
            cur = self._stmt(x, cur, fr)
            if cur is not None:
                mids.append(cur.copy())
        ends = []
        if cur is not None:
            e = self._block(s.orelse, cur, fr)
            if e is not None:
                ends.append(e)
        hs = self._joinall(mids)
        for h in s.handlers:
            b = hs.copy()
            if h.name:
                b.env[h.name] = E
            e = self._block(h.body, b, fr)
            if e is not None:
                ends.append(e)
        out = self._joinall(ends)
        if s.finalbody:
            if out is None:
                self._block(s.finalbody, hs.copy(), fr)
                return None
            out = self._block(s.finalbody, out, fr)
        return out

    _s_TryStar = _s_Try

    def _s_Match(self, s, st, fr):
        self.ev(s.subject, st, fr)
        outs = [st.copy()]
        for c in s.cases:
            outs.append(self._block(c.body, st.copy(), fr))
        return self._joinall(outs)

    # -- expressions -----------------------------------------------------
    def ev(self, e, st, fr):
        if e is None:
            return E
        m = getattr(self, '_e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st, fr)
            return E
        return m(e, st, fr)

    def _e_Constant(self, e, st, fr):
        return E

    def _e_Name(self, e, st, fr):
        if e.id in st.env:
            return st.env[e.id]
        o = fr.outer
        while o is not None:
            if e.id in o[0].env:
                return o[0].env[e.id]
            o = o[1].outer
        r = self.prog.resolve_name(fr.func.module, e.id)
        if r is None:
            return frozenset([('x', e.id)])
        return self._resolved(r, e.id, fr)

    def _resolved(self, r, name, fr):
        if isinstance(r, Func):
            return frozenset([('f', r, E, None)])
        if isinstance(r, Cls):
            return frozenset([('c', r)])
        if isinstance(r, Module):
            return frozenset([('mod', r)])
        if r[0] == 'ext':
            return frozenset([('x', r[1])])
        if r[0] == 'const':
            m = r[1]
            exprs = m.assigns.get(r[2], [])
            if any(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(x, ast.Call) and not self._textcall(x, m)
                   for x in exprs):
                return frozenset([('r', ('glob', m.name, r[2]), ())])
        return E

    def _e_Attribute(self, e, st, fr):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super':
            f = None
            if fr.cls is not None and fr.func.cls is not None and fr.func.cls in fr.cls.mro:
                f = fr.cls.find(e.attr, after=fr.func.cls)
            if f is None:
                return frozenset([('x', 'object.' + e.attr)])
            if f.kind == 'property':
                return self.call_func(f, fr.cls, fr.selfn, [], {}, e, st, fr)
            return frozenset([('f', f, fr.selfn, fr.cls)])
        b = self.ev(e.value, st, fr)
        hint = st.env.get(('%', e.value.id)) if isinstance(e.value, ast.Name) else None
        return self.getattr(b, e.attr, e, st, fr, hint)

    def _classes(self):
        for m in self.prog.modules.values():
            for c in m.classes.values():
                yield c

    def _mangle(self, attr, fr):
        return attr

    def grouped(self, nodes):
        """nodes by class: [(class or None, node set)]"""
        by = {}
        for n in nodes:
            c = self.ncls.get(n)
            by.setdefault((c.name, c) if c is not None else (None, None), set()).add(n)
        return [(k[1], frozenset(v)) for k, v in by.items()]

    def getattr(self, b, attr, node, st, fr, hint=None):
        out = E
        for c, ns in self.grouped(b):
            if c is None:
                out |= self._getattr(ns, attr, node, st, fr, hint)
                continue
            f = c.find(attr)
            if f is not None and attr != '__class__':
                if f.kind == 'property':
                    out |= self.call_func(f, c, ns, [], {}, node, st, fr)
                elif f.kind == 'method':
                    out |= frozenset([('f', f, ns, c)])
                else:
                    out |= self._bind(f, c, next(iter(ns)), node, st, fr)
            else:
                for n in ns:
                    out |= self._objattr(n, attr, node, st, fr)
        return out

    def _getattr(self, b, attr, node, st, fr, hint=None):
        out = E
        cand = {}
        for n in b:
            if n[0] == 'r' and not self._builtin_attr(n, attr, st):
                for f, k in self._cands(attr):
                    if hint is None or any(h in k.mro or k in h.mro for h in hint):
                        cand.setdefault((f, k), set()).add(n)
        if cand:
            b = b - frozenset(n for v in cand.values() for n in v)
            for (f, k), ns in cand.items():
                if f.kind == 'property':
                    out |= self.call_func(f, k, frozenset(ns), [], {}, node, st, fr)
                else:
                    out |= frozenset([('f', f, frozenset(ns), k)])
        for n in b:
            if n[0] == 'x':
                out |= frozenset([('x', n[1] + '.' + attr)])
            elif n[0] == 'mod':
                r = self.prog.resolve_name(n[1], attr)
                out |= self._resolved(r, attr, fr) if r is not None else E
            elif n[0] == 'c':
                c = n[1]
                f = c.find(attr)
                if f is not None:
                    out |= frozenset([('f', f, frozenset([n]) if f.kind == 'class' else E, c)])
                elif attr in ('__name__', '__mro__'):
                    pass
                else:
                    k = c.find_const(attr)
                    if k is not None:
                        out |= self._clsconst(k[0], attr, k[1], fr)
            elif n[0] in ('r', 'a'):
                out |= self._objattr(n, attr, node, st, fr)
            elif n[0] == 'f' and attr in ('__func__', '__wrapped__'):
                out |= frozenset([n])
            elif n[0] == 'f' and not attr.startswith('__'):
                out |= frozenset([('r', ('glob', n[1].module.name, n[1].qual + '.' + attr), ())])
        return out

    def _textcall(self, x, m):
        """a call that evidently gives text, a number, a tuple or a compiled pattern"""
        d = dotted(self.prog, m, None, x.func)
        return isinstance(d, str) and (d.startswith('os.path.') or d in ('str', 'int', 'float', 'bool', 'tuple', 'frozenset', 're.compile', 'len', 'abs', 'round'))

    def _clsconst(self, c, attr, x, fr):
        if isinstance(x, ast.Call) and self._textcall(x, c.module):
            return E
        if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
            return frozenset([('r', ('cls', c.name, attr), ())])
        if isinstance(x, ast.Name):
            r = self.prog.resolve_name(c.module, x.id)
            if r is not None:
                return self._resolved(r, x.id, fr)
        return E

    def _objattr(self, n, attr, node, st, fr):
        c = self.ncls.get(n)
        if attr == '__class__':
            return frozenset([('c', c)]) if c else frozenset([('kls', n)])
        if attr == '__dict__':
            return frozenset([n])
        if c is not None:
            f = c.find(attr)
            if f is not None:
                return self._bind(f, c, n, node, st, fr)
            out = self.get(st, n, ('.', attr))
            k = c.find_const(attr)
            if k is not None and not self._init_sets(c, attr):
                out |= self._clsconst(k[0], attr, k[1], fr)
            return out
        if (n, ('.', attr)) in st.heap:
            return st.heap[(n, ('.', attr))]
        if n[0] == 'a' and not (n, '@base') in st.heap or attr in BUILTIN_METHODS:
            if attr in VIEW_ATTRS and attr != 'values':
                return frozenset([n])
            return frozenset([('m', n, attr)])
        if n[0] == 'a':
            cands = self._cands(attr)
            if cands:
                out = E
                for f, k in cands:
                    out |= self.call_func(f, k, frozenset([n]), [], {}, node, st, fr) if f.kind == 'property' else frozenset([('f', f, frozenset([n]), k)])
                return out
        if attr in VIEW_ATTRS:
            return frozenset([n])
        return self.get(st, n, ('.', attr)) | frozenset([('m', n, attr)])

    def _builtin_attr(self, n, attr, st):
        return (n, ('.', attr)) in st.heap or attr in BUILTIN_METHODS or attr in ('__class__', '__dict__')

    def _cands(self, attr):
        if attr not in self._cand_cache:
            fs = [(k.methods[attr], k) for k in self._classes() if attr in k.methods and not self._abstract(k.methods[attr])]
            props = [x for x in fs if x[0].kind == 'property']
            self._cand_cache[attr] = props or fs
        return self._cand_cache[attr]

    @staticmethod
    def _abstract(f):
        b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return not b or (len(b) == 1 and isinstance(b[0], (ast.Pass, ast.Raise)))

    def _init_sets(self, c, attr):
        for k in c.mro:
            f = k.methods.get('__init__')
            if f is not None:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                        return True
        return False

    def _bind(self, f, c, n, node, st, fr):
        if f.kind == 'property':
            return self.call_func(f, c, frozenset([n]), [], {}, node, st, fr)
        if f.kind == 'static':
            return frozenset([('f', f, E, c)])
        if f.kind == 'class':
            return frozenset([('f', f, frozenset([('c', c)]), c)])
        return frozenset([('f', f, frozenset([n]), c)])

    def _e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        self.ev(e.slice, st, fr)
        sel = '[]'
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
            sel = e.slice.value
        out = E
        for c, ns in self.grouped(b):
            f = c.find('__getitem__') if c else None
            if f is not None:
                out |= self.call_func(f, c, ns, [E], {}, e, st, fr)
                b -= ns
        for n in b:
            if isinstance(e.slice, ast.Slice):
                if n[0] == 'a':
                    out |= frozenset([self.new(e, n[2], fr, self.get(st, n, '[]'), st)])
                elif n[0] == 'r':
                    out |= frozenset([n])       # array slices are views
            else:
                out |= self.get(st, n, sel)
        return out

    def _e_IfExp(self, e, st, fr):
        self.ev(e.test, st, fr)
        a = self.ev(e.body, self._narrow(e.test, st.copy(), fr, True), fr)
        b = self.ev(e.orelse, self._narrow(e.test, st.copy(), fr, False), fr)
        # side effects of the branches on the heap
        self.ev(e.body, st, fr)
        self.ev(e.orelse, st, fr)
        return a | b

    def _e_BoolOp(self, e, st, fr):
        out = E
        for v in e.values:
            out |= self.ev(v, st, fr)
        return out

    def _e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def _e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        return E

    def _e_BinOp(self, e, st, fr):
        a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
        return self._binop(a, b, OPS.get(type(e.op)), e, st, fr)

    def _binop(self, a, b, op, node, st, fr):
        out = E
        for c, ns in self.grouped(a):
            f = c.find('__%s__' % op) if c and op else None
            if f is not None and len(self.stack) > OPDEPTH:
                out |= frozenset([self.fresh(node, fr, cls=c, tag=c.name)])     # the operator is analysed as an entry of its own
            elif f is not None:
                out |= self.call_func(f, c, ns, [b], {}, node, st, fr)
            elif c is None and op and len(self.stack) <= OPDEPTH:
                ns = frozenset(n for n in ns if n[0] == 'r' and n[1][0] in ('self', 'arg'))
                for k in self._classes() if ns else ():
                    f = k.methods.get('__%s__' % op)
                    if f is not None:
                        out |= self.call_func(f, k, ns, [b], {}, node, st, fr)
        for c, ns in self.grouped(b):
            f = c.find('__r%s__' % op) if c and op else None
            if f is not None:
                out |= self.call_func(f, c, ns, [a], {}, node, st, fr)
        k = {n[2] for n in a | b if n[0] == 'a' and n[2] in ('list', 'tuple', 'dict', 'set')}
        if k and op in ('add', 'or', 'mul'):
            x = self.new(node, sorted(k)[0], fr, self.elems(st, a) | self.elems(st, b), st)
            return out | frozenset([x])
        if out:
            return out
        if a or b:
            x = self.fresh(node, fr)
            if op in ('or', 'add'):
                src = frozenset(n for n in a | b if n[0] in ('r', 'a'))
                if src and op == 'or':
                    x = self.new(node, 'dict', fr, self.elems(st, src), st)
            return frozenset([x])
        return E

    def _e_List(self, e, st, fr):
        return self._display(e, 'list', st, fr)

    def _e_Tuple(self, e, st, fr):
        return self._display(e, 'tuple', st, fr)

    def _e_Set(self, e, st, fr):
        return self._display(e, 'set', st, fr)

    def _display(self, e, kind, st, fr):
        if not isinstance(e.ctx if hasattr(e, 'ctx') else ast.Load(), ast.Load):
            return E
        n = self.new(e, kind, fr)
        star = False
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                star = True
                self.add(st, n, '[]', self.elems(st, self.ev(x.value, st, fr)))
            else:
                v = self.ev(x, st, fr)
                self.add(st, n, '[]' if star or kind == 'set' else i, v)
        if not e.elts:
            st.heap.setdefault((n, '[]'), E)
        return frozenset([n])

    def _e_Dict(self, e, st, fr):
        n = self.new(e, 'dict', fr)
        st.heap.setdefault((n, '[]'), E)
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, st, fr)
            if k is None:
                self.add(st, n, '[]', self.elems(st, x))
            else:
                self.ev(k, st, fr)
                self.add(st, n, '[]', x)
        return frozenset([n])

    def _comp(self, e, st, fr, elt, kind):
        saved = {}
        for g in e.generators:
            it = self.ev(g.iter, st, fr)
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    saved.setdefault(x.id, st.env.get(x.id))
            self._assign(g.target, self.iterate(it, st, e, fr), st, fr)
            for c in g.ifs:
                self.ev(c, st, fr)
                self._narrow(c, st, fr, True)
        vs = elt()
        for k, v in saved.items():
            st.env.pop(('%', k), None)
            if v is None:
                st.env.pop(k, None)
            else:
                st.env[k] = v
        n = self.new(e, kind, fr)
        self.add(st, n, '[]', vs)
        return frozenset([n])

    def _e_ListComp(self, e, st, fr):
        return self._comp(e, st, fr, lambda: self.ev(e.elt, st, fr), 'list')

    def _e_GeneratorExp(self, e, st, fr):
        return self._comp(e, st, fr, lambda: self.ev(e.elt, st, fr), 'iter')

    def _e_SetComp(self, e, st, fr):
        return self._comp(e, st, fr, lambda: self.ev(e.elt, st, fr), 'set')

    def _e_DictComp(self, e, st, fr):
        def elt():
            self.ev(e.key, st, fr)
            return self.ev(e.value, st, fr)
        return self._comp(e, st, fr, elt, 'dict')

    def _e_Lambda(self, e, st, fr):
        i = self._closure(e, fr)
        self.lams[i] = (e, fr, st)
        return frozenset([i])

    def _e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def _e_Yield(self, e, st, fr):
        fr.yields |= self.ev(e.value, st, fr)
        return E

    def _e_YieldFrom(self, e, st, fr):
        fr.yields |= self.elems(st, self.ev(e.value, st, fr))
        return E

    def _e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # -- calls -----------------------------------------------------------
    def _e_Call(self, e, st, fr):
        f = self.ev(e.func, st, fr)
        pos, kw = [], {}
        stars = E
        for a in e.args:
            v = self.ev(a, st, fr)
            if isinstance(a, ast.Starred):
                stars |= self.elems(st, v)
            else:
                pos.append(v)
        kwstar = E
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                kwstar |= self.elems(st, v)
            else:
                kw[k.arg] = v
        if stars:
            kw['*'] = stars
        if kwstar:
            kw['**'] = kwstar
        return self.call(f, pos, kw, e, st, fr)

    def call(self, f, pos, kw, node, st, fr):
        out = E
        for g in f:
            if g[0] == 'f':
                out |= self.call_func(g[1], g[3], g[2], pos, kw, node, st, fr)
            elif g[0] == 'c':
                out |= self.construct(g[1], pos, kw, node, st, fr)
            elif g[0] == 'kls':
                out |= frozenset([self.fresh(node, fr)])
            elif g[0] == 'l':
                out |= self._call_local(g, pos, kw, node, st, fr)
            elif g[0] == 'pt':
                p = self.lams[g]
                k2 = dict(p[2])
                k2.update(kw)
                out |= self.call(p[0], list(p[1]) + pos, k2, node, st, fr)
            elif g[0] == 'x':
                out |= self._ext(g[1], pos, kw, node, st, fr)
            elif g[0] == 'm':
                out |= self._meth(g[1], g[2], pos, kw, node, st, fr)
            elif g[0] in ('r', 'a'):
                c = self.ncls.get(g)
                h = c.find('__call__') if c else None
                if h is not None:
                    out |= self.call_func(h, c, frozenset([g]), pos, kw, node, st, fr)
        if not f:
            out = frozenset([self.fresh(node, fr)])
        return out

    def construct(self, c, pos, kw, node, st, fr):
        n = self.new(node, 'obj:' + c.name, fr, cls=c)
        f = c.find('__init__')
        if f is not None:
            self.call_func(f, c, frozenset([n]), pos, kw, node, st, fr)
        elif any(isinstance(d, str) and d.split('(')[0].endswith('dataclass') for d in [ast.unparse(x) for x in c.node.decorator_list]):
            names = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
            for k, v in list(zip(names, pos)) + [x for x in kw.items() if x[0] in names]:
                st.heap[(n, ('.', k))] = v
        else:
            for v in pos:
                self.add(st, n, '[]', self.elems(st, v))
        return frozenset([n])

    def _call_local(self, g, pos, kw, node, st, fr):
        node2, fr2 = self.lams[g][:2]
        if len(self.stack) > MAXDEPTH or self.stack.count(node2) >= 2:
            return E
        env = {}
        self._bindargs(node2.args, pos, kw, env, st, node, fr, None)
        outer = st if fr2 is fr else (self.lams[g][2] if len(self.lams[g]) > 2 else st)
        nf = Frame(fr2.func, fr2.cls, fr2.selfn, fr.ctxt + (self._site(node),), outer=(State(dict(outer.env), st.heap), fr2))
        self.stack.append(node2)
        s2 = State(env, st.heap)
        end = self._body(node2, s2, nf)
        self.stack.pop()
        return self._finish(nf, end, st, node, fr)

    def _finish(self, nf, end, st, node, fr):
        outs = list(nf.returns)
        if end is not None:
            outs.append((E, end))
        ret = E
        for v, _ in outs:
            ret |= v
        j = self._joinall([s for _, s in outs])
        if j is not None:
            st.heap = j.heap
        if nf.yields:
            ret |= frozenset([self.new(node, 'iter', fr, nf.yields, st)])
        return ret

    def call_func(self, f, c, bound, pos, kw, node, st, fr):
        self.calls += 1
        self.budget -= 1
        c = c or f.cls
        if f in self.stack:
            self.hit = True
            return self.rec.get((f, c), E) | frozenset([self.fresh(node, fr, tag='rec')])
        if self.budget < 0 or len(self.stack) > MAXDEPTH:
            self.cut = True
            return frozenset([self.fresh(node, fr, tag='rec')])
        self.inlined.add(f.qual)
        a = f.node.args
        pos = list(pos)
        selfn = E
        if f.kind in ('method', 'property', 'setter', 'other') and f.cls is not None:
            if bound:
                selfn = bound
                pos = [bound] + pos
            elif pos:
                selfn = pos[0]
        elif f.kind == 'class':
            pos = [bound or frozenset([('c', c)])] + pos
        env = {}
        self._bindargs(a, pos, kw, env, st, node, fr, f)
        nf = Frame(f, c, selfn, fr.ctxt + (self._site(node),))
        self.stack.append(f)
        if all(n[0] in ('c', 'x', 'mod') for v in env.values() for n in v):
            # no object goes in: the result does not depend on the heap
            key = (f, c, frozenset(env.items()))
            if key in self.memo:
                ret, heap = self.memo[key]
                for k, v in heap.items():
                    st.heap[k] = st.heap[k] | v if k in st.heap else v
                self.stack.pop()
                return ret
            s2, hit = State({}, {}), self.hit
            self.hit = False
            ret = self._finish(nf, self._body(f.node, State(env, {}), nf), s2, node, fr)
            if not self.hit:
                self.memo[key] = (ret, s2.heap)
            self.hit |= hit
            for k, v in s2.heap.items():
                st.heap[k] = st.heap[k] | v if k in st.heap else v
            self.stack.pop()
            self.rec[(f, c)] = self.rec.get((f, c), E) | ret
            return ret
        end = self._body(f.node, State(env, st.heap), nf)
        self.stack.pop()
        ret = self._finish(nf, end, st, node, fr)
        self.rec[(f, c)] = self.rec.get((f, c), E) | ret
        return ret

    def _bindargs(self, a, pos, kw, env, st, node, fr, f):
        names = [x.arg for x in a.posonlyargs + a.args]
        stars, kwstar = kw.get('*', E), kw.get('**', E)
        used = set()
        for i, n in enumerate(names):
            if i < len(pos):
                env[n] = pos[i]
            elif n in kw:
                env[n] = kw[n]
                used.add(n)
            else:
                env[n] = stars | kwstar if (stars or kwstar) else self._default(a, n, f)
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw:
                env[n] = kw[n]
                used.add(n)
            else:
                env[n] = kwstar or self._default(a, n, f)
        if a.vararg:
            t = self.new(node, 'tuple', fr)
            v = stars
            for p in pos[len(names):]:
                v |= p
            st.heap[(t, '[]')] = v
            env[a.vararg.arg] = frozenset([t])
        if a.kwarg:
            t = ('a', (self._site(node), fr.ctxt[-CTX:], 'kw'), 'dict')
            v = kwstar
            for k, x in kw.items():
                if k not in used and k not in ('*', '**') and k not in names:
                    v |= x
            st.heap[(t, '[]')] = v
            env[a.kwarg.arg] = frozenset([t])

    def _default(self, a, n, f):
        names = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
        x = d.get(n)
        if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)) and f is not None:
            return frozenset([('r', ('dflt', f.qual, n), ())])
        return E

    # -- external code -----------------------------------------------------
    def deepcopy(self, nodes, node, st, fr):
        out = E
        for n in nodes:
            c = self.ncls.get(n)
            f = c.find('__deepcopy__') if c else None
            if f is not None:
                out |= self.call_func(f, c, frozenset([n]), [E], {}, node, st, fr)
            elif n[0] in ('r', 'a'):
                x = self.fresh(node, fr, cls=c, tag='dc' + (c.name if c else ''))
                out |= frozenset([x])
            else:
                out |= frozenset([n])
        return out

    def shallow(self, nodes, kind, node, st, fr, keep=False):
        out = E
        for n in nodes:
            c = self.ncls.get(n)
            f = c.find('__copy__') if c and keep else None
            if f is not None:
                out |= self.call_func(f, c, frozenset([n]), [], {}, node, st, fr)
                continue
            if n[0] not in ('r', 'a'):
                out |= frozenset([n])
                continue
            x = ('a', (self._site(node), fr.ctxt[-CTX:], 'sc', n), kind if not keep else (n[2] if n[0] == 'a' else 'copy'))
            if keep and c is not None:
                self.ncls[x] = c
            st.heap[(x, '@base')] = frozenset([n])
            out |= frozenset([x])
        return out

    def _ext(self, d, pos, kw, node, st, fr):
        d = self._canon(d)
        a0 = pos[0] if pos else kw.get('*', E)
        allargs = E
        for v in list(pos) + [v for k, v in kw.items()]:
            allargs |= v
        if 'out' in kw and kw['out']:
            self.mutate(kw['out'], 'written by %s(out=...)' % d, node, fr)
            return kw['out']
        if d in MUT_FUNCS:
            if d == 'setattr':
                k = node.args[1] if len(getattr(node, 'args', [])) > 1 else None
                v = pos[2] if len(pos) > 2 else E
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    self._setattr(a0, k.value, v, node, st, fr)
                else:
                    self.mutate(a0, 'attribute set', node, fr)
                return E
            self.mutate(a0, 'changed by %s' % d, node, fr)
            for n in a0:
                if n[0] in ('r', 'a'):
                    for v in pos[1:]:
                        self.add(st, n, '[]', self.elems(st, v) if d.endswith(('update', 'extend')) else v)
            return a0 if d.startswith('operator.i') else self.elems(st, a0)
        if d == 'numpy.nan_to_num' and self._constkw(node, 'copy', False):
            self.mutate(a0, 'changed by nan_to_num(copy=False)', node, fr)
            return a0
        if d in ('numpy.array', 'numpy.char.array') and self._constkw(node, 'copy', False):
            return a0
        if d == 'copy.deepcopy':
            return self.deepcopy(a0, node, st, fr)
        if d in ('copy.copy', 'copy.replace'):
            return self.shallow(a0, 'copy', node, st, fr, keep=True)
        if d in ('map',):
            r = self.call(pos[0], [self.iterate(v, st, node, fr) for v in pos[1:]], {}, node, st, fr) if pos else E
            return frozenset([self.new(node, 'iter', fr, r, st)])
        if d in ('functools.reduce', 'reduce'):
            el = self.elems(st, pos[1]) if len(pos) > 1 else E
            init = pos[2] if len(pos) > 2 else E
            r = self.call(pos[0], [el | init, el], {}, node, st, fr) if pos else E
            return r | el | init
        if d in ('functools.partial',):
            i = ('pt', (self._site(node), fr.ctxt[-CTX:]))
            self.lams[i] = (pos[0] if pos else E, pos[1:], kw)
            return frozenset([i])
        if d == 'filter':
            return frozenset([self.new(node, 'iter', fr, self.elems(st, pos[1]) if len(pos) > 1 else E, st)])
        if d == 'enumerate':
            return frozenset([('it', 'enum', a0)])
        if d == 'zip':
            t = self.new(node, 'tuple', fr)
            for i, v in enumerate(pos):
                st.heap[(t, i)] = self.iterate(v, st, node, fr)
            x = ('a', (self._site(node), fr.ctxt[-CTX:], 'it'), 'iter')
            st.heap[(x, '[]')] = frozenset([t])
            return frozenset([x])
        if d in ('next', 'max', 'min', 'random.choice'):
            out = self.elems(st, a0)
            if d in ('max', 'min') and len(pos) > 1:
                for v in pos:
                    out |= v
            for v in pos[1:]:
                out |= v if d == 'next' else E
            return out
        if d in ('itertools.chain',):
            out = E
            for v in pos:
                out |= self.elems(st, v)
            return frozenset([self.new(node, 'iter', fr, out, st)])
        if d == 'itertools.chain.from_iterable':
            return frozenset([self.new(node, 'iter', fr, self.elems(st, self.elems(st, a0)), st)])
        if d == 'getattr':
            k = node.args[1] if len(getattr(node, 'args', [])) > 1 else None
            dv = pos[2] if len(pos) > 2 else E
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                return self.getattr(a0, k.value, node, st, fr) | dv
            return self.elems(st, a0, ('.', '?')) | dv
        if d in ('type',) and len(pos) == 1:
            return frozenset([('c', self.ncls[n]) if self.ncls.get(n) else ('kls', n) for n in a0 if n[0] in ('r', 'a')])
        if d == 'eval':
            out = E
            for v in pos[1:]:
                out |= self.elems(st, v)
            if len(pos) == 1:
                for v in st.env.values():
                    out |= v
            return frozenset(n for n in out if n[0] in ('r', 'a')) | frozenset([self.fresh(node, fr)])
        if d in ('globals', 'locals', 'vars') and not pos:
            if d == 'globals':
                return frozenset([('r', ('glob', fr.func.module.name, 'globals()'), ())])
            x = self.new(node, 'dict', fr)
            for k, v in st.env.items():
                self.add(st, x, '[]', v)
            return frozenset([x])
        if d in VIEW_FUNCS:
            return a0
        if d in SHALLOW_FUNCS:
            kind = {'dict': 'dict', 'list': 'list', 'set': 'set', 'tuple': 'tuple', 'sorted': 'list', 'collections.OrderedDict': 'dict'}.get(d, 'copy')
            srcs = pos if d in ('dict', 'collections.ChainMap') or len(pos) < 2 else pos[:1]
            if kind in ('list', 'tuple', 'set'):
                el = self.iterate(a0, st, node, fr)
                return frozenset([self.new(node, kind, fr, el, st)]) if el else frozenset([self.new(node, kind, fr)])
            x = self.new(node, kind, fr)
            st.heap.setdefault((x, '[]'), E)
            for v in srcs:
                self.add(st, x, '[]', self._pairs(v, st))
            for k, v in kw.items():
                self.add(st, x, '[]', v)
            return frozenset([x])
        if d == 'collections.defaultdict':
            x = self.new(node, 'dict', fr)
            st.heap.setdefault((x, '[]'), E)
            for v in pos[1:]:
                self.add(st, x, '[]', self._pairs(v, st))
            return frozenset([x])
        if d in OPFUNCS and len(pos) == 2:
            return self._binop(pos[0], pos[1], OPFUNCS[d], node, st, fr)
        if d == 'operator.getitem' and pos:
            return self.elems(st, a0)
        if d in ('isinstance', 'len', 'str', 'repr', 'float', 'int', 'bool', 'any', 'all', 'hasattr', 'callable', 'issubclass', 'print', 'hash', 'id', 'range',
                 'format', 'ord', 'chr', 'abs', 'round', 'sum'):
            return E
        if d.startswith(('object.', 'super.')) and d.endswith(('__setattr__', '__delattr__')):
            self.mutate(fr.selfn, 'attribute set', node, fr)
            return E
        if d.startswith(SCALAR_MODULES):
            return E
        return frozenset([self.fresh(node, fr)])

    def _pairs(self, v, st):
        """values of a mapping built from a mapping or from an iterable of pairs"""
        out = E
        for n in v:
            if n[0] == 'it' or n[0] == 'a' and n[2] in ('iter', 'list', 'tuple', 'set'):
                for t in self.get(st, n, '[]'):
                    out |= self.get(st, t, 1)
            else:
                c = self.ncls.get(n)
                out |= self.get(st, n, '[]')
        return out

    def _canon(self, d):
        return d

    @staticmethod
    def _constkw(node, name, val):
        for k in getattr(node, 'keywords', []):
            if k.arg == name and isinstance(k.value, ast.Constant) and k.value.value is val:
                return True
        return False

    def _meth(self, n, name, pos, kw, node, st, fr):
        """method of an object of unknown or builtin type"""
        a0 = pos[0] if pos else E
        one = frozenset([n])
        if self._constkw(node, 'inplace', True):
            self.mutate(one, '.%s(inplace=True)' % name, node, fr)
            return E
        if 'out' in kw and kw['out']:
            self.mutate(kw['out'], 'written by .%s(out=...)' % name, node, fr)
            return kw['out']
        if name in MUTATORS and not (name == 'partition' and not (node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, int))):
            self.mutate(one, '.%s()' % name, node, fr)
            if n[0] in ('r', 'a'):
                if name in ('update', 'extend', '__ior__', '__iadd__', 'extendleft'):
                    v = E
                    for p in pos:
                        v |= self._pairs(p, st) if name != 'extend' else self.iterate(p, st, node, fr)
                        for m in p:
                            if m[0] == 'a' and m[2] == 'dict' or name == '__iadd__':
                                v |= self.get(st, m, '[]')
                    for k, x in kw.items():
                        v |= x
                    self.add(st, n, '[]', v)
                elif name in ('append', 'add', 'appendleft'):
                    self.add(st, n, '[]', a0)
                elif name in ('setdefault', 'insert', '__setitem__'):
                    self.add(st, n, '[]', pos[1] if len(pos) > 1 else E)
            if name in ELEMENTS:
                return self.get(st, n, '[]') | (pos[1] if len(pos) > 1 else E)
            return E
        if name in TEXT_METHODS:
            return E
        if name in ELEMENTS:
            return self.get(st, n, '[]') | (pos[1] if len(pos) > 1 else E)
        if name == 'keys':
            return E
        if name in ('items', 'values'):
            return frozenset([('it', name, one)])
        if name == 'copy':
            if n[0] == 'r' and n[1][0] != 'fresh' and n[2] and n[2][-1] == '[]':
                return one and frozenset([self.fresh(node, fr)])     # copy of an array element
            return self.shallow(one, 'dict', node, st, fr)
        if name == 'astype' and self._constkw(node, 'copy', False):
            return one
        if name in VIEW_METHODS:
            return one
        if name == '__deepcopy__':
            return self.deepcopy(one, node, st, fr)
        if name == '__copy__':
            return self.shallow(one, 'copy', node, st, fr, keep=True)
        return frozenset([self.fresh(node, fr)])


# -- facts over all entry points ---------------------------------------------
CALLER = ('arg', 'kw', 'var')


class Facts:
    """mutations, captures and results of every public entry point"""
    def __init__(self, ctx, private=False):
        self.ctx, self.own = ctx, Own(ctx.prog)
        self.entries = []
        for c in ctx.classes():
            for k, f in ctx.methods(c.name):
                if private or public(f.name):
                    self.entries.append((k, f))
        for m in ctx.prog.modules.values():
            for f in m.funcs.values():
                if private or public(f.name):
                    self.entries.append((None, f))
        self.failed = []

    def run(self, rep=None):
        for c, f in self.entries:
            try:
                yield c, f, self.own.run(f, c)
            except RecursionError:
                self.failed.append(f)
                if rep is not None:
                    rep.unk('analysis', f.where, 'recursion too deep')

    def mutated_fields(self):
        """{class name: {path}} paths of the fields of an object that some public method (other than the constructor) mutates in place"""
        out = {}
        for c, f, r in self.run():
            if c is None:
                continue
            for m in r.muts:
                if m.node[1] == ('self',) and m.node[2]:
                    out.setdefault(c.name, {}).setdefault(m.node[2], m)
        return out

    def captures(self):
        """(class, path from an object of that class, caller node, entry)"""
        out = []
        for c, f, r in self.run():
            for (n, sel) in list(r.state.heap):
                k = r.ncls.get(n)
                if k is None or not (isinstance(sel, tuple) and sel[0] == '.'):
                    continue
                for p, m in r.reach(r.get(n, sel), 3):
                    if m[0] == 'r' and m[1][0] in CALLER:
                        out.append((k, (sel,) + p, m, c, f))
        return out


def public(name):
    return not name.startswith('_') or (name.startswith('__') and name.endswith('__'))
