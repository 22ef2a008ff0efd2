"""Resolved view of the package under analysis: modules, imports, classes,
functions, method resolution order.  Everything is read from source on every
run; nothing of the package is ever imported or executed."""
import ast
import hashlib
import os


class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, syntax error)."""


class Func:
    def __init__(self, module, cls, node, kind):
        self.module, self.cls, self.node, self.kind = module, cls, node, kind
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qual = (cls.name + '.' if cls else module.short + '.') + self.name
        if kind == 'setter':
            self.qual += '.setter'

    @property
    def where(self):
        return '%s:%d %s' % (self.module.rel, self.node.lineno, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def __repr__(self):
        return '<Func %s>' % self.qual


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = node.name
        self.methods = {}        # name -> Func
        self.setters = {}
        self.consts = {}         # name -> ast expr
        self.bases = []          # Cls or dotted str
        self.mro = []

    def find(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
        return None

    def find_const(self, name):
        for c in self.mro:
            if name in c.consts:
                return c, c.consts[name]
        return None

    def __repr__(self):
        return '<Cls %s>' % self.name


class Module:
    def __init__(self, name, rel, source):
        self.name, self.rel, self.source = name, rel, source
        self.short = name.rsplit('.', 1)[-1]
        self.tree = ast.parse(source, rel)
        self.imports = {}        # local name -> dotted
        self.funcs = {}
        self.classes = {}
        self.assigns = {}        # name -> list of value exprs


def _decorators(node):
    out = []
    for d in node.decorator_list:
        try:
            out.append(ast.unparse(d))
        except Exception:
            out.append('?')
    return out


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.digest = None
        self._load()
        self._link()

    def _load(self):
        root = os.path.join(self.repo, 'NRWAL')
        if not os.path.isdir(root):
            raise AnalysisError('package directory NRWAL not found in %s' % self.repo)
        h = hashlib.sha256()
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                src = open(path, encoding='utf-8').read()
                h.update(rel.encode() + b'\0' + src.encode())
                try:
                    self.modules[name] = Module(name, rel, src)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
        self.digest = h.hexdigest()

    def _link(self):
        for m in self.modules.values():
            self._scan_imports(m)
            self._scan_body(m, m.tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    c.bases.append(r if isinstance(r, Cls) else ast.unparse(b))
        for m in self.modules.values():
            for c in m.classes.values():
                c.mro = self._mro(c)

    def _scan_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs[st.name] = Func(m, None, st, 'func')
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = self._scan_class(m, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                v = st.value
                                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                                    m.assigns.setdefault(e.id, []).append(v.elts[k])
                                else:
                                    m.assigns.setdefault(e.id, []).append(None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.assigns.setdefault(st.target.id, []).append(None)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for sub in ('body', 'orelse', 'finalbody'):
                    self._scan_body(m, getattr(st, sub, []) or [])
                for hd in getattr(st, 'handlers', []) or []:
                    self._scan_body(m, hd.body)

    def _scan_class(self, m, node):
        c = Cls(m, node)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = _decorators(st)
                kind = 'method'
                for d in decs:
                    if d == 'staticmethod':
                        kind = 'static'
                    elif d == 'classmethod':
                        kind = 'class'
                    elif d in ('property', 'functools.cached_property', 'cached_property'):
                        kind = 'property'
                    elif d.endswith('.setter'):
                        kind = 'setter'
                    elif d.endswith('.getter') or d.endswith('.deleter'):
                        kind = 'other'
                f = Func(m, c, st, kind)
                f.decorators = decs
                if kind == 'setter':
                    c.setters[st.name] = f
                elif kind != 'other':
                    c.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                c.consts[st.target.id] = st.value
        # alias definitions: __div__ = __truediv__ , x = property(_get, _set)
        for name, e in list(c.consts.items()):
            if isinstance(e, ast.Name) and e.id in c.methods:
                c.methods[name] = c.methods[e.id]
                del c.consts[name]
            elif (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'property'
                  and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in c.methods):
                g = c.methods[e.args[0].id]
                f = Func(m, c, g.node, 'property')
                c.methods[name] = f
                if len(e.args) > 1 and isinstance(e.args[1], ast.Name) and e.args[1].id in c.methods:
                    c.setters[name] = Func(m, c, c.methods[e.args[1].id].node, 'setter')
                del c.consts[name]
        return c

    def _scan_imports(self, m):
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.rel.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    m.imports[a.asname or a.name] = base + '.' + a.name

    def _mro(self, c, seen=()):
        # linearisation good enough for single inheritance + mixins
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls) and b not in seen:
                for x in self._mro(b, seen + (c,)):
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    # -- resolution ------------------------------------------------------
    def resolve_dotted(self, dotted):
        """dotted name -> Module | Cls | Func | ('const', module, expr) | ('ext', dotted)"""
        if dotted in self.modules:
            return self.modules[dotted]
        if '.' in dotted:
            head, tail = dotted.rsplit('.', 1)
            r = self.resolve_dotted(head) if head.split('.')[0] == 'NRWAL' else None
            if isinstance(r, Module):
                return self.resolve_name(r, tail)
            if isinstance(r, Cls):
                f = r.find(tail)
                if f:
                    return f
        return ('ext', dotted)

    def resolve_name(self, m, name, seen=()):
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.assigns:
            return ('const', m, name)
        if name in m.imports:
            d = m.imports[name]
            if (m.name, name) in seen:
                return ('ext', d)
            if d.split('.')[0] == 'NRWAL' and '.' in d:
                if d in self.modules:
                    return self.modules[d]
                head, tail = d.rsplit('.', 1)
                if head in self.modules:
                    r = self.resolve_name(self.modules[head], tail, seen + ((m.name, name),))
                    if r is not None:
                        return r
            return self.resolve_dotted(d)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    # -- lookups ---------------------------------------------------------
    def cls(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        raise AnalysisError('class %s not found in the package' % name)

    def func(self, clsname, name, setter=False):
        c = self.cls(clsname)
        f = c.find_setter(name) if setter else c.find(name)
        if f is None:
            raise AnalysisError('%s.%s not found in the package' % (clsname, name))
        return f

    def all_funcs(self):
        """every function object incl. methods (not nested ones)"""
        out = []
        for m in self.modules.values():
            out += list(m.funcs.values())
            for c in m.classes.values():
                out += list(dict.fromkeys(list(c.methods.values()) + list(c.setters.values())))
        return out
