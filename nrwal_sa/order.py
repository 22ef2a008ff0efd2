"""Order taint: values whose order depends on the file system or on hashing.

Every function is interpreted flow-insensitively over {None, 'fs', 'hash'}: a
value is tainted if its order (or, for a text, its content) can depend on a
directory listing or on the iteration order of a set.  `S` marks set values:
they have no observable order until something iterates over them."""
import ast

from .program import Func, Cls
from .astq import dotted

FS = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob', 'os.fwalk'}
FS_METHODS = {'iterdir', 'rglob'}
SETS = {'set', 'frozenset'}
SETMETH = {'union', 'intersection', 'difference', 'symmetric_difference'}
ORDERED = {'sorted', 'len', 'any', 'all', 'sum', 'min', 'max', 'bool', 'isinstance', 'numpy.sort', 'numpy.unique', 'natsort.natsorted', 'hash', 'collections.Counter'}
THROUGH = {'list', 'tuple', 'iter', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'dict', 'numpy.array', 'numpy.asarray', 'itertools.chain', 'dict.fromkeys',
           'collections.OrderedDict', 'next', 'str', 'repr', 'copy.copy', 'copy.deepcopy', 'itertools.islice', 'functools.partial'}
LOGGERS = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'}


class Order:
    def __init__(self, prog):
        self.prog = prog
        self.rets = {}       # Func -> taint
        self.fields = {}     # attribute name -> taint
        self.why = {}
        self.sinks = []
        self.sources = []

    def solve(self):
        funcs = self.prog.all_funcs()
        for _ in range(6):
            before = (dict(self.rets), dict(self.fields))
            self.sinks, self.sources = [], []
            for f in funcs:
                self._func(f)
            if before == (self.rets, self.fields):
                break
        return self

    def _func(self, f):
        self.f, self.env, self.sorted_names, self.search = f, {}, set(), False
        for n in ast.walk(f.node):
            if (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and isinstance(n.func.value, ast.Name)):
                self.sorted_names.add(n.func.value.id)
        for _ in range(3):
            self.first = True
            self._block(f.node.body)

    # taint of an expression: None | 'fs' | 'hash' | ('S',) for sets
    def t(self, e):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            if e.id in self.sorted_names:
                return None
            return self.env.get(e.id)
        if isinstance(e, ast.Attribute):
            return self.fields.get(e.attr)
        if isinstance(e, (ast.Set, ast.SetComp)):
            if isinstance(e, ast.Set) and len(e.elts) < 2 and not any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            return 'S'
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            out = None
            for g in e.generators:
                x = self.t(g.iter)
                if x:
                    out = 'hash' if x == 'S' else x
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.t(e.left), self.t(e.right)
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
                if a == 'S' or b == 'S' or self._keysview(e.left) or self._keysview(e.right):
                    return 'S'
                return None
            if isinstance(e.op, ast.Add):
                return a or b
            return None
        if isinstance(e, ast.IfExp):
            return self.t(e.body) or self.t(e.orelse)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                if self.t(v):
                    return self.t(v)
            return None
        if isinstance(e, (ast.List, ast.Tuple)):
            for v in e.elts:
                x = self.t(v.value if isinstance(v, ast.Starred) else v)
                if isinstance(v, ast.Starred) and x:
                    return 'hash' if x == 'S' else x
            return None
        if isinstance(e, ast.Starred):
            return self.t(e.value)
        if isinstance(e, ast.Subscript):
            x = self.t(e.value)
            if x == 'S' or not isinstance(e.slice, (ast.Slice, ast.Constant, ast.UnaryOp)):
                return None
            return x if not (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str)) else None
        if isinstance(e, ast.NamedExpr):
            return self.t(e.value)
        if isinstance(e, ast.JoinedStr):
            return None
        if isinstance(e, ast.Call):
            return self._call(e)
        return None

    def _collides(self, k):
        """a sort key that is the same for different elements: ties keep the order they came in"""
        if isinstance(k, ast.Lambda):
            b, par = k.body, [a.arg for a in k.args.args]
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and isinstance(b.func.value, ast.Name) and b.func.value.id in par:
                return b.func.attr in ('lower', 'upper', 'casefold', 'endswith', 'startswith', 'count', 'isdigit', 'isupper', 'islower', 'find')
            if isinstance(b, ast.Call):
                return self._collides(b.func) and any(isinstance(x, ast.Name) and x.id in par for a in b.args for x in ast.walk(a))
            if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Call):
                return dotted(self.prog, self.f.module, self.f.node, b.value.func) == 'os.path.splitext'
            if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id in par:
                return isinstance(b.slice, (ast.Constant, ast.UnaryOp))
            return isinstance(b, ast.Constant)
        d = dotted(self.prog, self.f.module, self.f.node, k)
        return d in ('len', 'os.path.isdir', 'os.path.isfile', 'str.lower', 'str.upper', 'str.casefold', 'os.path.getsize', 'bool', 'type')

    @staticmethod
    def _keysview(e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items') and not e.args

    def _call(self, e):
        d = dotted(self.prog, self.f.module, self.f.node, e.func)
        name = d if isinstance(d, str) else None
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        if name in FS or isinstance(e.func, ast.Attribute) and e.func.attr in FS_METHODS or \
                isinstance(e.func, ast.Attribute) and e.func.attr == 'glob' and name is None:
            w = (self.f, e)
            if w not in self.sources:
                self.sources.append(w)
            return 'fs'
        if name in SETS:
            for a in args:
                self.t(a)
            return 'S'
        if name in ORDERED:
            xs = [self.t(a) for a in args]
            if name == 'sorted' and xs and xs[0] and any(k.arg == 'key' and self._collides(k.value) for k in e.keywords):
                return 'hash' if xs[0] == 'S' else xs[0]
            return None
        if name in THROUGH:
            for a in args:
                x = self.t(a)
                if x:
                    return 'hash' if x == 'S' else x
            return None
        if isinstance(d, Func):
            return self.rets.get(d)
        if isinstance(d, Cls):
            return None
        if isinstance(e.func, ast.Attribute):
            b = self.t(e.func.value)
            if e.func.attr in SETMETH and b == 'S':
                return 'S'
            if e.func.attr == 'join' and e.args:
                x = self.t(e.args[0])
                return 'hash' if x == 'S' else x
            if e.func.attr in ('pop', 'popitem', 'popleft') and b:
                return 'hash' if b == 'S' else b
            if e.func.attr in ('keys', 'values', 'items', 'copy') and b:
                return b
            # method of a package class, by name
            outs = set()
            for m in self.prog.modules.values():
                for c in m.classes.values():
                    g = c.methods.get(e.func.attr)
                    if g is not None and self.rets.get(g):
                        outs.add(self.rets[g])
            if outs:
                return sorted(outs)[0]
        return None

    # statements -------------------------------------------------------------
    def _block(self, body, loop=None):
        for s in body:
            self._stmt(s, loop)

    def _set(self, target, x, loop):
        if isinstance(target, ast.Name):
            self.env[target.id] = x or (self.env.get(target.id) if loop else x)
        elif isinstance(target, ast.Attribute):
            if x and x != 'S':
                self._sink('stored in attribute %s' % target.attr, target, x)
            elif x == 'S':
                self.fields[target.attr] = 'S'
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self._set(t, None, loop)

    def _sink(self, what, node, x):
        self.sinks.append((self.f, node, what, x))

    def _stmt(self, s, loop):
        if isinstance(s, ast.Assign):
            x = self.t(s.value)
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self._element(t, loop, s)
                else:
                    self._set(t, x, loop)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self._set(s.target, self.t(s.value), loop)
        elif isinstance(s, ast.AugAssign):
            x = self.t(s.value)
            if x == 'S':
                x = 'S' if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) else 'hash'
            if isinstance(s.target, ast.Name):
                if x:
                    self.env[s.target.id] = x
                elif loop and isinstance(s.op, ast.Add) and not isinstance(s.value, ast.Constant) and self.env.get(s.target.id) is None:
                    if self._grows(s.target.id):
                        self.env[s.target.id] = loop
            elif isinstance(s.target, ast.Subscript):
                self._element(s.target, loop, s)
        elif isinstance(s, ast.Expr):
            self._expr(s.value, loop)
        elif isinstance(s, ast.Return):
            x = self.t(s.value)
            if loop and not x and s.value is not None and not isinstance(s.value, ast.Constant) and not self.search:
                x = loop
            if x:
                self.rets[self.f] = x
                if x != 'S':
                    self._sink('returned', s, x)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            x = self.t(s.iter)
            x = 'hash' if x == 'S' else x
            self._set(s.target, None, loop)
            if x == 'fs' and isinstance(s.target, (ast.Tuple, ast.List)) and self._walk(s.iter):
                for t in s.target.elts[1:]:
                    self._set(t, 'fs', loop)
            self._block(s.body, x or loop)
            self._block(s.orelse, loop)
        elif isinstance(s, ast.While):
            self._block(s.body, loop)
            self._block(s.orelse, loop)
        elif isinstance(s, ast.If):
            # a search for one particular element finds the same one in any order
            old, self.search = self.search, self.search or any(isinstance(o, ast.Eq) for n in ast.walk(s.test) if isinstance(n, ast.Compare) for o in n.ops)
            self._block(s.body, loop)
            self.search = old
            self._block(s.orelse, loop)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if i.optional_vars is not None:
                    self._set(i.optional_vars, self.t(i.context_expr), loop)
            self._block(s.body, loop)
        elif isinstance(s, ast.Try):
            self._block(s.body, loop)
            for h in s.handlers:
                self._block(h.body, loop)
            self._block(s.orelse, loop)
            self._block(s.finalbody, loop)

    def _walk(self, e):
        return isinstance(e, ast.Call) and dotted(self.prog, self.f.module, self.f.node, e.func) in ('os.walk', 'os.fwalk')

    def _grows(self, name):
        """the name starts as a list or a text in this function"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                v = n.value
                if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Constant) and isinstance(v.value, str) \
                        or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'str'):
                    return True
        return False

    def _element(self, t, loop, s):
        """item stored: inside a loop of unknown order a dictionary gets that order"""
        if not loop:
            return
        base = t.value
        if isinstance(base, ast.Name):
            if self.env.get(base.id) is None and self._fresh_container(base.id):
                self.env[base.id] = loop
        elif isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == 'self':
            if not self._preset(s):
                self._sink('entries of %s added' % base.attr, s, loop)

    @staticmethod
    def _preset(s):
        return False

    def _fresh_container(self, name):
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                v = n.value
                if isinstance(v, (ast.Dict, ast.List, ast.DictComp, ast.ListComp)):
                    return True
                if isinstance(v, ast.Call):
                    d = dotted(self.prog, self.f.module, self.f.node, v.func)
                    if d in ('dict', 'list', 'collections.OrderedDict', 'collections.defaultdict'):
                        return True
        return False

    def _expr(self, e, loop):
        if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute):
            return
        a = e.func.attr
        if a in LOGGERS:
            return
        base = e.func.value
        if a in ('append', 'extend', 'insert', 'update', 'setdefault', 'appendleft'):
            x = None
            for v in e.args:
                y = self.t(v)
                if y and a in ('extend', 'update'):
                    x = 'hash' if y == 'S' else y
            x = x or loop
            if not x:
                return
            if isinstance(base, ast.Name):
                if self.env.get(base.id) == 'S':
                    return
                if self.env.get(base.id) is None and self._fresh_container(base.id):
                    self.env[base.id] = x
            elif isinstance(base, ast.Attribute):
                self._sink('entries of %s added' % base.attr, e, x)
