"""Gated value-flow analysis (a gated-SSA style forward dataflow analysis).

For one entry function the analysis computes, without running anything, which
terms can reach which uses and under which guard: branches are merged into
decision diagrams at every join (no path enumeration, no solver), loops are
summarised by quantified effects, package helpers are analysed in context, and
everything outside the package stays an uninterpreted term."""
import ast

from .program import Program, Func, Cls, Module, AnalysisError
from .mtbdd import (TRUE, FALSE, T, F, leaf, atom, ite, band, bor, bnot, bind, lift,
                    restrict, Node, leaves, is_leaf, cases, tshow)
from . import terms as tm
from .terms import (NONE, UNDEF, const, cnode, is_const, is_str_const, mk_attr, mk_index, mk_slice, mk_bin,
                    mk_mcall, mk_call, mk_eq, mk_lt, mk_le, mk_in, mk_isinst, mk_isnone, mk_truth, mk_fmt,
                    mk_str, mk_neg, truth, unwrap, iter_of, list_ops, frozen_list, frozen_dict, subst,
                    mk_exists, mentions, tmentions, from_py, is_stringish, lookup)

BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception',
    'AttributeError': 'Exception', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'NameError': 'Exception', 'OSError': 'Exception', 'IOError': 'OSError',
    'FileNotFoundError': 'OSError', 'NotADirectoryError': 'OSError', 'IsADirectoryError': 'OSError',
    'PermissionError': 'OSError', 'FileExistsError': 'OSError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'StopIteration': 'Exception', 'SyntaxError': 'Exception', 'TypeError': 'Exception',
    'ValueError': 'Exception', 'UnicodeDecodeError': 'ValueError', 'UnicodeError': 'ValueError',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'Warning': 'Exception', 'UserWarning': 'Warning',
    'EnvironmentError': 'OSError', 'MemoryError': 'Exception', 'EOFError': 'Exception',
}


def exc_ancestors(name, prog=None):
    out = []
    while name:
        out.append(name)
        if name in BUILTIN_EXC:
            name = BUILTIN_EXC[name]
        else:
            nxt = 'Exception'
            if prog is not None:
                for m in prog.modules.values():
                    if name in m.classes and m.classes[name].bases:
                        b = m.classes[name].bases[0]
                        nxt = b.name if isinstance(b, Cls) else str(b)
                        break
            name = nxt
    return out


class Obj:
    """state of a container location"""
    __slots__ = ('kind', 'base', 'ops', 'depth')

    def __init__(self, kind, base, ops, depth):
        self.kind, self.base, self.ops, self.depth = kind, base, ops, depth

    def same(self, o):
        return (self.kind, self.base, self.ops) == (o.kind, o.base, o.ops)


class State:
    __slots__ = ('env', 'fields', 'conts', 'pc')

    def __init__(self, env=None, fields=None, conts=None, pc=T):
        self.env = env if env is not None else {}
        self.fields = fields if fields is not None else {}
        self.conts = conts if conts is not None else {}
        self.pc = pc

    def clone(self):
        return State(dict(self.env), dict(self.fields), dict(self.conts), self.pc)

    def set(self, o):
        self.env, self.fields, self.conts, self.pc = o.env, o.fields, o.conts, o.pc


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'pc', 'chain', 'node', 'func', 'result', 'seq', 'raw', 'stack', 'st')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def where(self):
        f = self.func
        return '%s:%s %s' % (f.module.rel, getattr(self.node, 'lineno', '?'), f.qual)

    def __repr__(self):
        return '<%s %s recv=%s args=%s kw=%s chain=%s if %s>' % (
            self.kind, self.name, self.recv, self.args, self.kw, [tshow(c) for c in self.chain], self.pc)


class Raise:
    __slots__ = ('exc', 'guard', 'inner', 'chain', 'node', 'func', 'seq')

    def __init__(self, exc, guard, inner, chain, node, func, seq):
        self.exc, self.guard, self.inner, self.chain = exc, guard, inner, chain
        self.node, self.func, self.seq = node, func, seq

    @property
    def where(self):
        return '%s:%s %s' % (self.func.module.rel, getattr(self.node, 'lineno', '?'), self.func.qual)

    def __repr__(self):
        return '<raise %s if %s>' % (self.exc, self.guard)


class Frame:
    def __init__(self, func, cls):
        self.func, self.cls = func, cls
        self.rets = []       # (pc, value, state)
        self.closures = {}
        self.is_gen = False
        self.gen_ref = None
        self.entry = {}
        self.caller_env = None


class Loop:
    def __init__(self):
        self.breaks, self.conts = [], []


class Summary:
    pass


class Closure:
    def __init__(self, node, frame, env):
        self.node, self.frame, self.env = node, frame, env


LOGGER_METHODS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault',
            'popitem', 'add', 'discard', 'fill', 'itemset', 'resize', 'put', 'partition_inplace', 'setflags',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'move_to_end',
            '__setitem__', '__delitem__', '__iadd__', 'setfield', 'byteswap', 'appendleft', 'popleft'}
DICT_TYPES = {'dict', 'collections.OrderedDict', 'OrderedDict'}


class Engine:
    def __init__(self, prog, stop=(), max_depth=14, unroll=48, inline_new=(), stop_props=(), spec=0, preds=None, raise_hint=None, ext=None, objects=()):
        self.prog = prog
        self.objects = set(objects)     # classes whose fields are read off their constructor
        self.ext = ext or {}            # assumption about an external function: name -> (list of argument Nodes -> Node or None)
        self.spec = spec                # > 0: constant specialisation, with this many calls as the bound
        self.raise_hint = raise_hint    # assumption about implicit exceptions: (types, terms) -> guard or None
        self.preds = preds or {}        # qualified predicate -> python meaning on constants
        if spec:
            max_depth = max(max_depth, 90)
        self.stop = set(stop)           # function quals kept opaque
        self.max_depth, self.unroll = max_depth, unroll
        self.inline_new = set(inline_new)
        self.modconst = {}
        self.types = {}
        self._reset()
        tm.CLASS_BASES.clear()
        for m in prog.modules.values():
            for c in m.classes.values():
                tm.CLASS_BASES[c.name] = {x.name for x in c.mro}

    def _reset(self):
        self.events, self.raises = [], []
        self.quiet = 0
        self.loops = []
        self.stack = []
        self.nref = 0
        self.seq = 0
        self.collectors = []         # active try collectors
        self.loopinfo = {}
        self.pointwise = {}
        self.notes = []
        self.spec_calls = 0

    # ------------------------------------------------------------------ API
    def run(self, func, cls=None, args=None, types=None):
        """analyse func with symbolic parameters -> Summary"""
        self._reset()
        self.types = dict(types or {})
        if cls is None:
            cls = func.cls
        env = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and func.kind != 'static':
                if func.kind == 'class':
                    env[n] = leaf(('class', cls.name))
                else:
                    env[n] = leaf(('param', 'self'))
                    self.types[('param', 'self')] = cls
            else:
                env[n] = leaf(('param', n))
        for x in a.kwonlyargs:
            env[x.arg] = leaf(('param', x.arg))
        if a.vararg:
            env[a.vararg.arg] = leaf(('param', '*' + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = leaf(('param', '**' + a.kwarg.arg))
        st = State(env)
        for k, v in (args or {}).items():
            if isinstance(v, dict):
                v = self.given_dict(v, st)
            if k.startswith('self.'):
                st.fields[(('param', 'self'), k[5:])] = v if isinstance(v, Node) else leaf(from_py(v))
            else:
                env[k] = v
        fr = Frame(func, cls)
        fr.entry = dict(st.env)
        self.stack.append((func.qual, fr))
        val = self.exec_function(fr, st)
        self.stack.pop()
        s = Summary()
        s.func, s.ret, s.state, s.pc = func, val, st, st.pc
        s.events, s.raises = self.events, self.raises
        s.engine = self
        s.rets = fr.rets
        s.fz = lambda v: self.fz(v, st)
        return s

    def given_dict(self, v, st):
        def val(b):
            return b if isinstance(b, Node) else self.given_dict(b, st) if isinstance(b, dict) else leaf(from_py(b))
        return leaf(self.new_ref(st, 'dict', ops=[('set', (), T, cnode(a), val(b)) for a, b in v.items()]))

    # ------------------------------------------------------------- plumbing
    def note(self, msg):
        self.notes.append(msg)

    def here(self):
        return self.stack[-1][1].func if self.stack else None

    def emit(self, kind, name, st, node, recv=None, args=(), kw=None, result=None, raw=None):
        self.seq += 1
        if self.quiet or st.pc is F:
            return
        self.events.append(Event(kind=kind, name=name, recv=recv, args=list(args), kw=dict(kw or {}), pc=st.pc,
                                 chain=tuple(self.loops), node=node, func=self.here(), result=result, seq=self.seq,
                                 raw=raw, stack=tuple(q for q, _ in self.stack)))

    def new_ref(self, st, kind, base=None, ops=()):
        self.nref += 1
        r = ('ref', self.nref)
        st.conts[r] = Obj(kind, base, tuple(ops), len(self.loops))
        return r

    def rel(self, g, st):
        return restrict(g, st.pc)

    # freeze -------------------------------------------------------------
    def fz(self, v, st, depth=0):
        """replace references / mutated locations by structural terms"""
        if not isinstance(v, Node):
            raise TypeError(v)
        return bind(v, lambda t: self.fzt(t, st, depth))

    def fzt(self, t, st, depth=0):
        if depth > 12:
            return leaf(('deep',))
        h = t[0]
        if t in st.conts:
            o = st.conts[t]
            if h == 'ref' or not o.ops:
                ops = tuple(self.fz_op(op, st, depth) for op in o.ops)
            else:
                # inside its own updates a location stands for its content before them
                hidden = st.conts.pop(t)
                try:
                    ops = tuple(self.fz_op(op, st, depth) for op in o.ops)
                finally:
                    st.conts[t] = hidden
            if h == 'ref':
                if o.base is not None:
                    base = self.fzt(o.base, st, depth + 1)
                    if not ops:
                        return base
                    return tm._lift(lambda b: leaf(('upd', b, ops)), base)
                if o.kind == 'list':
                    return leaf(frozen_list(ops))
                if o.kind == 'dict':
                    return leaf(frozen_dict(ops))
                if o.kind == 'set':
                    return leaf(('setof', frozen_list(ops)))
                if o.kind == 'inst':
                    return leaf(('inst', t[1]))
                return leaf((o.kind, ops))
            if not ops:
                return self.fz_children(t, st, depth)
            return tm._lift(lambda b: leaf(('upd', b, ops)), self.fz_children(t, st, depth))
        return self.fz_children(t, st, depth)

    def fz_op(self, op, st, depth):
        out = [op[0], tuple(op[1]), self.rel(op[2], st)]
        for x in op[3:]:
            out.append(self.fz(x, st, depth + 1) if isinstance(x, Node) else x)
        return tuple(out)

    def has_ref(self, t):
        if isinstance(t, tuple):
            if t and t[0] == 'ref':
                return True
            return any(self.has_ref(x) for x in t)
        if isinstance(t, Node):
            return any(self.has_ref(x) for x in leaves(t))
        return False

    def fz_children(self, t, st, depth):
        h = t[0]
        if h in ('const', 'param', 'class', 'func', 'ext', 'undef', 'closure', 'coll', 'list', 'dict', 'upd', 'mu', 'elem', 'idx', 'ref'):
            return leaf(t)
        S = lambda x: self.fzt(x, st, depth + 1)
        if h == 'tuple':
            return tm._lift(lambda *xs: leaf(('tuple', tuple(xs))), *[S(x) for x in t[1]])
        if h == 'attr':
            if t[1] in st.conts or self.has_ref(t[1]):
                return tm._lift(lambda a: mk_attr(a, t[2]), S(t[1]))
            return leaf(t)
        if not self.has_ref(t) and not self._touches(t, st):
            return leaf(t)
        if h == 'view':
            return tm._lift(lambda a: leaf(('view', t[1], a)), S(t[2]))
        if h in ('sorted', 'setof', 'dcopy', 'scopy', 'str', 'starred'):
            return tm._lift(lambda a: leaf((h, a) + t[2:]), S(t[1]))
        if h == 'index':
            return tm._lift(mk_index, S(t[1]), S(t[2]))
        if h == 'call':
            n = len(t[2])
            ks = [k for k, _ in t[3]]
            return tm._lift(lambda *xs: leaf(('call', t[1], tuple(xs[:n]), tuple(zip(ks, xs[n:])))),
                            *([S(x) for x in t[2]] + [S(x) for _, x in t[3]]))
        return leaf(t)

    def _touches(self, t, st):
        """does t contain a location that has been mutated?"""
        if isinstance(t, tuple):
            if t in st.conts:
                return bool(st.conts[t].ops)
            return any(self._touches(x, st) for x in t if isinstance(x, tuple))
        return False

    # merging --------------------------------------------------------------
    def merge(self, states):
        """list of State (disjoint pcs) -> State"""
        live = [s for s in states if s.pc is not F]
        if not live:
            s = states[0].clone() if states else State()
            s.pc = F
            return s
        out = live[-1].clone()
        for s in reversed(live[:-1]):
            tot = bor(s.pc, out.pc)

            def m(a, b):
                return restrict(ite(s.pc, a, b), tot) if a is not b else a
            for k in set(s.env) | set(out.env):
                a, b = s.env.get(k, leaf(UNDEF)), out.env.get(k, leaf(UNDEF))
                out.env[k] = m(a, b)
            for k in set(s.fields) | set(out.fields):
                d = self.init_field(k)
                out.fields[k] = m(s.fields.get(k, d), out.fields.get(k, d))
            for k in set(s.conts) | set(out.conts):
                a, b = s.conts.get(k), out.conts.get(k)
                if a is None or b is None:
                    out.conts[k] = a or b
                elif a is not b:
                    i = 0
                    while i < len(a.ops) and i < len(b.ops) and a.ops[i] == b.ops[i]:
                        i += 1
                    ops = a.ops[:i] + a.ops[i:] + b.ops[i:]
                    out.conts[k] = Obj(a.kind, a.base, ops, a.depth)
            out.pc = tot
        return out

    def init_field(self, key):
        obj, name = key
        return leaf(('attr', obj, name))

    # functions -------------------------------------------------------------
    def exec_function(self, fr, st):
        """executes body of fr.func in st (env already bound); returns value and leaves st at exit"""
        node = fr.func.node
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, st)
        body = node.body
        fr.is_gen = _is_generator(node)
        if fr.is_gen:
            fr.gen_ref = self.new_ref(st, 'list')
        self.exec_block(body, st)
        if st.pc is not F:
            v = cnode(None)
            fr.rets.append((st.pc, v, st.clone()))
        if not fr.rets:
            st.pc = F
            return leaf(UNDEF)
        rets = fr.rets
        tot = F
        for pc, _, _ in rets:
            tot = bor(tot, pc)
        v = rets[-1][1]
        for pc, x, _ in reversed(rets[:-1]):
            v = ite(pc, x, v)
        v = restrict(v, tot)
        env = st.env
        merged = self.merge([s for _, _, s in rets])
        st.set(merged)
        st.env = env
        st.pc = tot
        if fr.is_gen:
            return leaf(fr.gen_ref)
        return v

    def bind_args(self, func, args, kw, star, dstar, st, skip_first):
        """args: list V, kw: dict V -> env or None if it cannot be bound"""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_first:
            names = names[1:]
        env = {}
        if star is not None:
            return None
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            elif a.vararg:
                extra.append(v)
            else:
                return None
        if a.vararg:
            env[a.vararg.arg] = tm._lift(lambda *xs: leaf(('tuple', tuple(xs))), *extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                rest[k] = v
        defaults = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[n] = d
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        for n in names + kwonly:
            if n in env:
                continue
            dv = None
            if n in defaults:
                dv = self.ev_const(defaults[n], func.module, func.cls)
            if dstar is not None:
                cur = dv if dv is not None else leaf(UNDEF)
                for dd in dstar:
                    fd = self.fz(dd, st)
                    cur = bind(fd, lambda t, cur=cur: lookup(t, const(n), cur))
                env[n] = cur
            elif dv is not None:
                env[n] = dv
            else:
                return None
        if a.kwarg:
            r = self.new_ref(st, 'dict')
            ops = []
            for k, v in rest.items():
                ops.append(('set', (), T, cnode(k), v))
            for dd in dstar or []:
                fd = self.fz(dd, st)
                ops.append(('upd', (), T, fd))
            # a ** dict passed alone is received as a fresh copy of it
            st.conts[r] = Obj('dict', None, tuple(ops), len(self.loops))
            env[a.kwarg.arg] = leaf(r)
        elif rest:
            return None
        return env

    def call_func(self, func, cls, args, kw, star, dstar, st, node, selfv=None, closure_env=None):
        """inline analysis of a package function; None when it cannot be inlined"""
        qual = func.qual
        bound = (func.cls is not None and func.kind in ('method', 'class', 'property', 'setter'))
        env = self.bind_args(func, args, kw, star, dstar, st, bound)
        if env is None:
            return None
        depth = sum(1 for q, _ in self.stack)
        onstack = any(f.func.node is func.node for _, f in self.stack)
        if onstack and self.spec:
            # context-sensitive specialisation: a recursive call on other constants is another function
            self.spec_calls += 1
            last = [f for _, f in self.stack if f.func.node is func.node][-1]
            changed = any(last.entry.get(n) is not env[n] and
                          (is_leaf(env[n]) and is_const(env[n].leaf) or
                           tm.HINT and len(leaves(env[n])) <= 40 and
                           all(is_const(x) or tm.HINT(x) for x in leaves(self.fz(env[n], st)))) for n in env)
            if changed and self.spec_calls < self.spec and sum(1 for _, f in self.stack if f.func.node is func.node) < 20:
                onstack = False
        if onstack or depth >= self.max_depth:
            names = [n for n in func.params() if n in env]
            fzd = [(n, self.fz(env[n], st)) for n in names]
            fzself = None
            if bound and func.kind in ('method', 'property') and selfv is not None:
                fzd.insert(0, ('self', self.fz(selfv, st)))
            r = lift(lambda *xs: leaf(('rec', qual, tuple(zip([n for n, _ in fzd], xs)))), *[v for _, v in fzd])
            if r is None:
                r = leaf(('rec', qual, tuple((n, ('gated', v)) for n, v in fzd)))
            self.emit('rec', qual, st, node, recv=selfv, args=[], kw=dict(fzd), result=r, raw=dict(env))
            self.risky(r)
            return r
        if bound:
            first = (func.node.args.posonlyargs + func.node.args.args)[0].arg
            if func.kind == 'class':
                env[first] = leaf(('class', (cls or func.cls).name))
            else:
                env[first] = selfv
        if closure_env is not None:
            e2 = dict(closure_env)
            e2.update(env)
            env = e2
        self.emit('inline', qual, st, node, recv=selfv, kw={k: v for k, v in env.items()} if closure_env is None else {})
        fr = Frame(func, cls or func.cls)
        saved_env = st.env
        fr.caller_env = saved_env
        fr.entry = dict(env)
        st.env = env
        self.stack.append((qual, fr))
        try:
            v = self.exec_function(fr, st)
        finally:
            self.stack.pop()
        st.env = saved_env
        return v

    # constants -------------------------------------------------------------
    def ev_const(self, expr, module, cls=None):
        """evaluate an expression in module scope"""
        key = id(expr)
        if key in self.modconst:
            return self.modconst[key]
        self.modconst[key] = leaf(('global', module.name, getattr(expr, 'lineno', 0)))
        fake = _ModuleFunc(module)
        fr = Frame(fake, cls)
        self.stack.append((module.name, fr))
        self.quiet += 1
        saved, self.loops = self.loops, []
        try:
            st = State()
            v = self.ev(expr, st)
            v = self.fz(v, st)
        finally:
            self.loops = saved
            self.quiet -= 1
            self.stack.pop()
        self.modconst[key] = v
        return v

    # statements ------------------------------------------------------------
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.pc is F:
                return
            self.exec(s, st)

    def exec(self, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('statement %s not modelled' % type(s).__name__)
            return
        m(s, st)

    def x_Pass(self, s, st):
        pass

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def x_Global(self, s, st):
        pass
    x_Nonlocal = x_Global

    def x_Import(self, s, st):
        pass
    x_ImportFrom = x_Import

    def x_ClassDef(self, s, st):
        pass

    def x_FunctionDef(self, s, st):
        fr = self.stack[-1][1]
        self.nref += 1
        t = ('closure', self.nref)
        self.closures = getattr(self, 'closures', {})
        self.closures[t] = Closure(s, fr, st)
        st.env[s.name] = leaf(t)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else cnode(None)
        if st.pc is F:
            return
        fr = self.stack[-1][1]
        fr.rets.append((st.pc, v, st.clone()))
        st.pc = F

    def x_Raise(self, s, st):
        name = None
        if s.exc is None:
            name = '<reraise>'
            cur = getattr(self, 'handling', None)
            if cur:
                name = cur[-1]
        else:
            name = self.exc_name(s.exc, st)
        self.do_raise(name, st.pc, st, s)
        st.pc = F

    def exc_name(self, e, st):
        c = e.func if isinstance(e, ast.Call) else e
        v = self.ev(c, st) if not isinstance(c, ast.Call) else self.ev(c, st)
        if is_leaf(v):
            t = v.leaf
            if t[0] == 'ext':
                return t[1].split('.')[-1]
            if t[0] == 'class':
                return t[1]
            if t[0] == 'new':
                return t[1]
            if t[0] == 'call':
                return t[1].split('.')[-1]
            if t[0] == 'exc':
                return t[1]
        if isinstance(e, ast.Call):
            r = self.ev(e, st)
            if is_leaf(r) and r.leaf[0] in ('new', 'call'):
                return r.leaf[1].split('.')[-1]
        return '<unknown>'

    def do_raise(self, name, guard, st, node):
        if guard is F:
            return
        self.seq += 1
        r = Raise(name, guard, guard, tuple(self.loops), node, self.here(), self.seq)
        if self.collectors:
            cl = st.clone()
            d = self.collectors[-1].get('depth', len(self.stack))
            if d < len(self.stack) and self.stack[d][1].caller_env is not None:
                cl.env = dict(self.stack[d][1].caller_env)
            self.collectors[-1]['raises'].append((r, cl))
        elif not self.quiet:
            self.raises.append(r)
        else:
            pass
        for lp in getattr(self, 'raise_sinks', []):
            lp.append(r)

    def risky(self, term):
        if self.collectors:
            self.collectors[-1]['risky'].append(term)

    def x_Assert(self, s, st):
        c = truth(self.fz(self.ev(s.test, st), st))
        bad = band(st.pc, bnot(c))
        if bad is not F:
            s2 = st.clone()
            s2.pc = bad
            self.do_raise('AssertionError', bad, s2, s)
        st.pc = band(st.pc, c)

    def x_If(self, s, st):
        c = truth(self.fz(self.ev(s.test, st), st))
        if st.pc is F:
            return
        a, b = st.clone(), st.clone()
        a.pc, b.pc = band(st.pc, c), band(st.pc, bnot(c))
        if a.pc is not F:
            self.exec_block(s.body, a)
        if b.pc is not F:
            self.exec_block(s.orelse, b)
        st.set(self.merge([a, b]))

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.fz(self.ev(t.slice, st), st)
                self.mutate(o, 'del', [k], st, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.emit('delattr', t.attr, st, s, recv=o)

    def x_AugAssign(self, s, st):
        op = _OPS.get(type(s.op), '?')
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(t, st)
            rhs = self.ev(s.value, st)
            isref = lambda x: x[0] == 'ref' and x in st.conts
            if op == '+' and any(isref(x) and st.conts[x].kind == 'list' for x in leaves(cur)):
                self.mutate(cur, 'extend', [rhs], st, s)
                return
            if op == '|' and any(isref(x) and st.conts[x].kind == 'dict' for x in leaves(cur)):
                self.mutate(cur, 'update', [rhs], st, s)
                return
            if op == '|' and any(isref(x) and st.conts[x].kind == 'set' for x in leaves(cur)):
                self.mutate(cur, 'extend', [rhs], st, s)
                return
            new = self.binop(op, cur, rhs, st)
            # in-place operation on a possibly mutable, not freshly made object
            self.emit('augassign', op, st, s, recv=self.fz(cur, st), args=[self.fz(rhs, st)], raw=cur)
            st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.get_attr(o, t.attr, st, s)
            rhs = self.ev(s.value, st)
            if op == '+' and any(x[0] == 'ref' and x in st.conts and st.conts[x].kind == 'list' for x in leaves(cur)):
                self.mutate(cur, 'extend', [rhs], st, s)
                return
            self.emit('augassign', op, st, s, recv=self.fz(cur, st), args=[self.fz(rhs, st)], raw=cur)
            self.set_attr(o, t.attr, self.binop(op, cur, rhs, st), st, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.fz(self.ev(t.slice, st), st)
            cur = self.subscript(o, k, st, s)
            rhs = self.ev(s.value, st)
            self.emit('augassign', op, st, s, recv=self.fz(cur, st), args=[self.fz(rhs, st)], raw=cur)
            self.mutate(o, 'setitem', [k, self.binop(op, cur, rhs, st)], st, s)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                k = leaf(('slicekey',))
            else:
                k = self.fz(self.ev(t.slice, st), st)
            self.mutate(o, 'setitem', [k, v], st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.fz(v, st) if not all(x[0] == 'tuple' for x in leaves(v)) else v
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    hi = i - len(t.elts) + 1
                    self.assign(e.value, bind(vv, lambda x: mk_slice(x, const(i), const(hi) if hi else NONE, NONE)), st, node)
                    continue
                idx = i
                self.assign(e, bind(vv, lambda x, idx=idx: self._unpack(x, idx)), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def _unpack(self, x, i):
        if x[0] == 'slice' and x[4] == NONE and (x[2] == NONE or tm.is_int_const(x[2])):
            lo = 0 if x[2] == NONE else x[2][2]
            if lo >= 0:
                return mk_index(x[1], const(lo + i))
        return mk_index(x, const(i))

    # attribute access ---------------------------------------------------------
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t[0] in ('dcopy', 'scopy'):
            return self.typeof(t[1])
        if t[0] == 'new':
            try:
                return self.prog.cls(t[1])
            except AnalysisError:
                return None
        return None

    def loc_type(self, t, st):
        if t[0] == 'ref' and t in st.conts:
            o = st.conts[t]
            if o.base is not None:
                return self.typeof(o.base)
            return None
        return self.typeof(t)

    def get_attr(self, ov, name, st, node):
        return bind(ov, lambda t: self.get_attr_t(t, name, st, node))

    def get_attr_t(self, t, name, st, node):
        if (t, name) in st.fields:
            return st.fields[(t, name)]
        if t[0] == 'ext':
            return leaf(('ext', t[1] + '.' + name))
        if t[0] == 'mod':
            m = self.prog.modules[t[1]]
            return self.resolved(self.prog.resolve_name(m, name), name)
        if t[0] == 'class':
            try:
                c = self.prog.cls(t[1])
            except AnalysisError:
                return leaf(('attr', t, name))
            f = c.find(_mangle(name, self.stack[-1][1].cls))
            if f is None:
                f = c.find(name)
            if f is not None:
                return leaf(('cmeth', t[1], f.name))
            k = c.find_const(name)
            if k is not None:
                return self.ev_const(k[1], k[0].module, k[0])
            if name == '__name__':
                return cnode(t[1])
            return leaf(('attr', t, name))
        c = self.loc_type(t, st)
        if name == '__class__':
            if c is not None:
                return leaf(('class', c.name))
            return leaf(('call', 'type', (t,), ()))
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.kind == 'property':
                    if f.qual in self.stop:
                        fzd = self.fz(leaf(t), st)
                        r = bind(fzd, lambda x: leaf(('attr', x, name)))
                        self.emit('call', f.qual, st, node, recv=fzd, result=r)
                        self.risky(r)
                        return r
                    r = self.call_func(f, c, [], {}, None, None, st, node, selfv=leaf(t))
                    return r if r is not None else leaf(('attr', t, name))
                return leaf(('bound', t, c.name, f.name))
            k = c.find_const(name)
            if k is not None:
                return self.ev_const(k[1], k[0].module, k[0])
        if t[0] == 'new' and t[1] in self.objects:
            v = self.new_field(t, name)
            if v is not None:
                return v
        if t[0] == 'ref' and t in st.conts and st.conts[t].base is None:
            return leaf(('attr', t, name))
        return leaf(('attr', t, name)) if t[0] != 'dcopy' else mk_attr(t, name)

    def new_field(self, t, name):
        """value of a field of a constructed object, from the summary of its constructor"""
        memo = self.prog.__dict__.setdefault('_ctor_fields', {})
        key = (t[1], frozenset(self.stop))
        if key not in memo:
            memo[key] = None
            c = self.prog.cls(t[1])
            f = c.find('__init__')
            if f is not None:
                old, tm.HINT = tm.HINT, None
                try:
                    s = Engine(self.prog, stop=self.stop).run(f, cls=c)
                finally:
                    tm.HINT = old
                memo[key] = (f, {a: s.fz(v) for (o, a), v in s.state.fields.items() if o == ('param', 'self')})
        if memo[key] is None:
            return None
        f, fields = memo[key]
        if name not in fields:
            return None
        m = {('param', k): v for k, v in t[2]}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if ('param', x) not in m:
                if not isinstance(d, ast.Constant):
                    return None
                m[('param', x)] = const(d.value)
        if any(v[0] == 'gated' for v in m.values()):
            return None
        return tm.subst(fields[name], m)

    def set_attr(self, ov, name, v, st, node):
        for g, t in cases(ov):
            g = band(st.pc, g)
            if g is F:
                continue
            c = self.loc_type(t, st)
            if c is not None:
                f = c.find_setter(name)
                if f is not None:
                    full = restrict(g, st.pc) is T or g is st.pc
                    if full:
                        self.call_func(f, c, [v], {}, None, None, st, node, selfv=leaf(t))
                        continue
                    a, b = st.clone(), st.clone()
                    a.pc, b.pc = g, band(st.pc, bnot(g))
                    self.call_func(f, c, [v], {}, None, None, a, node, selfv=leaf(t))
                    st.set(self.merge([a, b]))
                    continue
            old = st.fields.get((t, name), self.init_field((t, name)))
            st.fields[(t, name)] = restrict(ite(g, v, old), st.pc)
            self.emit('setattr', name, st, node, recv=leaf(t), args=[self.fz(v, st)], raw=v)

    # containers -------------------------------------------------------------
    def mutate(self, ov, what, args, st, node):
        """container mutation on every possible location"""
        fargs = [self.fz(a, st) for a in args]
        self.emit('mut', what, st, node, recv=ov, args=fargs, raw=args)
        ret = cnode(None)
        for g, t in cases(ov):
            g = band(st.pc, g)
            if g is F:
                continue
            o = st.conts.get(t)
            if o is None:
                o = Obj('loc', t, (), 0)
            chain = tuple(self.loops[o.depth:]) if t[0] == 'ref' else tuple(self.loops)
            ops = ()
            if what == 'setitem' and self.spec and t[0] == 'ref' and o.kind == 'dict' and o.base is None and not chain and \
                    restrict(g, st.pc) is T and any(op[3] is fargs[0] for op in o.ops) and self._plain_dict(o, st):
                new = tuple(op[:4] + (args[1],) if op[3] is fargs[0] else op for op in o.ops)
                st.conts[t] = Obj(o.kind, o.base, new, o.depth)
                continue
            if what == 'setitem':
                ops = (('set', chain, g, fargs[0], args[1]),)
            elif what in ('append', 'add'):
                ops = (('add', chain, g, args[0]),)
            elif what == 'extend':
                x = fargs[0]
                for gx, tx in cases(x):
                    gg = band(g, gx)
                    for op in self.list_ops(tx):
                        ops += ((op[0], chain + tuple(op[1]), band(gg, op[2])) + tuple(op[3:]),)
            elif what == 'update' and o.kind == 'set':
                for gx, tx in cases(fargs[0]) if args else ():
                    gg = band(g, gx)
                    for op in self.list_ops(tx):
                        ops += ((op[0], chain + tuple(op[1]), band(gg, op[2])) + tuple(op[3:]),)
            elif what == 'update':
                if args:
                    x = fargs[0]
                    for gx, tx in cases(x):
                        gg = band(g, gx)
                        if tx[0] == 'dict' and all(op[0] in ('set', 'upd') for op in tx[1]):
                            for op in tx[1]:
                                ops += ((op[0], chain + tuple(op[1]), band(gg, op[2])) + tuple(op[3:]),)
                        elif tx == NONE:
                            pass
                        else:
                            if tx[0] == 'list':
                                tx = ('call', 'dict', (tx,), ())
                            ops += (('upd', chain, gg, leaf(tx)),)
            elif what == 'del' and t[0] == 'ref' and o.kind == 'list' and o.base is None and not chain and \
                    restrict(g, st.pc) is T and is_leaf(fargs[0]) and tm.is_int_const(fargs[0].leaf) and \
                    all(op[0] == 'add' and not op[1] and restrict(op[2], st.pc) is T for op in o.ops) and \
                    -len(o.ops) <= fargs[0].leaf[2] < len(o.ops):
                left = list(o.ops)
                del left[fargs[0].leaf[2]]
                st.conts[t] = Obj(o.kind, o.base, tuple(left), o.depth)
                continue
            elif what == 'del' and t[0] == 'ref' and o.kind == 'dict' and o.base is None and not chain and \
                    restrict(g, st.pc) is T and is_leaf(fargs[0]) and is_const(fargs[0].leaf) and self._plain_dict(o, st) and \
                    any(op[3] is fargs[0] for op in o.ops):
                left = tuple(op for op in o.ops if op[3] is not fargs[0])
                st.conts[t] = Obj(o.kind, o.base, left, o.depth)
                continue
            elif what == 'del':
                ops = (('del', chain, g, fargs[0]),)
            elif what == 'clear':
                ops = (('clear', chain, g),)
                if not chain and restrict(g, st.pc) is T and t[0] == 'ref' and o.base is None:
                    st.conts[t] = Obj(o.kind, o.base, (), o.depth)
                    continue
            else:
                ops = (('other', chain, g, cnode(what)),)
            st.conts[t] = Obj(o.kind, o.base, o.ops + ops, o.depth)
        return ret

    def _plain_dict(self, o, st):
        """distinct constant keys, all certainly set"""
        return all(op[0] == 'set' and not op[1] and restrict(op[2], st.pc) is T and is_leaf(op[3]) and is_const(op[3].leaf)
                   for op in o.ops) and len({op[3].leaf for op in o.ops}) == len(o.ops)

    # loops -------------------------------------------------------------------
    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        fit = self.fz(it, st)
        items = self.const_items(fit)
        if items is not None and len(items) <= self.unroll:
            self.unrolled(s, items, st)
            return
        fit = self.name_iter(fit)
        lv = leaves(fit)
        if len(lv) > 1 and len(lv) <= 4:
            outs = []
            for g, t in cases(fit):
                b = st.clone()
                b.pc = band(st.pc, g)
                if b.pc is F:
                    continue
                self.for_term(s, t, b)
                outs.append(b)
            if outs:
                st.set(self.merge(outs))
            return
        if len(lv) != 1:
            lv = [('gated', fit)]
        self.for_term(s, lv[0], st)

    def for_term(self, s, t, st):
        items = self.const_items(leaf(t))
        if items is not None and len(items) <= self.unroll:
            self.unrolled(s, items, st)
            return
        chain, g, v = self.iter_binding(t)
        self.generic_loop(s, chain, g, v, st)

    def name_iter(self, v):
        """give a gated or structured iterable a name, so that its elements stay small terms"""
        lv = leaves(v)
        if any(self.const_items_t(x) is not None for x in lv):
            return v
        inner = [unwrap(x) for x in lv]
        if len(lv) > 1:
            kinds = {x[1] if x[0] == 'view' else None for x in inner}
            if len(kinds) != 1:
                return v
            k = kinds.pop()
            body = bind(v, lambda x: leaf(unwrap(x)[2]) if k else leaf(unwrap(x)))
            c = tm.mk_coll(body)
            return leaf(('view', k, c) if k else c)
        u = inner[0]
        k = None
        if u[0] == 'view':
            k, u = u[1], unwrap(u[2])
        if u[0] in ('dict', 'upd', 'list') and not self.through(u):
            c = tm.mk_coll(leaf(u))
            return leaf(('view', k, c) if k else c)
        return v

    def through(self, u):
        """single comprehension-like container: iterate over its source instead"""
        return u[0] in ('list', 'dict') and len(u[1]) == 1 and u[1][0][0] in ('add', 'set') and u[1][0][1] and \
            all(c[0] != 'while' for c in u[1][0][1])

    def iter_binding(self, t):
        """(chain, guard, value) for one generic iteration over term t"""
        u = unwrap(t)
        kind = None
        if u[0] == 'view' and unwrap(u[2])[0] == 'dict':
            kind, u = u[1], unwrap(u[2])
        if u[0] == 'dict' and self.through(u):
            op = u[1][0]
            v = op[3]
            if kind == 'values':
                v = op[4]
            elif kind == 'items':
                v = tm._lift(lambda a, b: leaf(('tuple', (a, b))), op[3], op[4])
            u = ('list', (('add', op[1], op[2], v),))
        if u[0] == 'list' and len(u[1]) == 1 and u[1][0][0] == 'add' and u[1][0][1] and \
                all(c[0] != 'while' for c in u[1][0][1]):
            op = u[1][0]
            chain, m = [], {}
            for c in op[1]:
                b = c[0]
                lvl = sum(1 for x in list(self.loops) + chain if x[0] == b)
                if lvl != c[1]:
                    m[('elem', b, c[1])] = ('elem', b, lvl)
                    m[('idx', b, c[1])] = ('idx', b, lvl)
                chain.append((b, lvl))
            g, v = op[2], op[3]
            if m:
                g, v = subst(g, m), subst(v, m)
            return tuple(chain), g, v
        if u[0] == 'call' and u[1] == 'enumerate' and unwrap(u[2][0])[0] == 'list':
            pass
        b, f = iter_of(t)
        lvl = sum(1 for x in self.loops if x[0] == b)
        return ((b, lvl),), T, f(lvl)

    def const_items(self, v):
        """list of item Nodes when the iterable has statically known elements"""
        if not is_leaf(v):
            return None
        t = v.leaf
        return self.const_items_t(t)

    def const_items_t(self, t):
        h = t[0]
        if h in ('tuple', 'arr'):
            return [leaf(x) for x in t[1]]
        if h in ('list', 'set'):
            if all(op[0] == 'add' and not op[1] and op[2] is T for op in t[1]):
                return [op[3] for op in t[1]]
            return None
        if h in ('scopy', 'dcopy'):
            return self.const_items_t(t[1])
        if h == 'sorted':
            xs = self.const_items_t(t[1])
            if xs is None:
                return None
            try:
                return [leaf(from_py(x)) for x in sorted(tm.pyval(y.leaf) for y in xs)]
            except Exception:
                return xs
        if h == 'setof':
            return self.const_items_t(t[1])
        if h == 'dict':
            ks = self._dict_items(t)
            return None if ks is None else [k for k, _ in ks]
        if h == 'view':
            if t[2][0] in ('dict', 'scopy', 'dcopy'):
                d = t[2]
                while d[0] in ('scopy', 'dcopy'):
                    d = d[1]
                if d[0] != 'dict':
                    return None
                ks = self._dict_items(d)
                if ks is None:
                    return None
                if t[1] == 'keys':
                    return [k for k, _ in ks]
                if t[1] == 'values':
                    return [x for _, x in ks]
                return [tm._lift(lambda a, b: leaf(('tuple', (a, b))), k, x) for k, x in ks]
            return None
        if h == 'call' and t[1] == 'enumerate' and len(t[2]) == 1:
            xs = self.const_items_t(t[2][0])
            if xs is None:
                return None
            return [tm._lift(lambda a, i=i: leaf(('tuple', (const(i), a))), x) for i, x in enumerate(xs)]
        if h == 'call' and t[1] == 'zip':
            cols = [self.const_items_t(x) for x in t[2]]
            if any(c is None for c in cols):
                return None
            return [tm._lift(lambda *xs: leaf(('tuple', tuple(xs))), *row) for row in zip(*cols)]
        if h == 'call' and t[1] == 'reversed' and len(t[2]) == 1:
            xs = self.const_items_t(t[2][0])
            return None if xs is None else xs[::-1]
        if h == 'call' and t[1] == 'range' and all(tm.is_int_const(x) for x in t[2]):
            r = range(*[x[2] for x in t[2]])
            if len(r) <= self.unroll:
                return [cnode(i) for i in r]
        if h == 'const' and t[1] == 'str':
            return [cnode(c) for c in t[2]]
        return None

    def list_ops(self, t):
        if self.spec and t[0] in ('view', 'call', 'dict'):
            xs = self.const_items_t(t)
            if xs is not None and len(xs) <= self.unroll:
                return tuple(('add', (), T, x) for x in xs)
        return list_ops(t, self.loops)

    def _dict_items(self, d):
        out = []
        for op in d[1]:
            if op[0] == 'set' and not op[1] and op[2] is T and is_leaf(op[3]) and is_const(op[3].leaf):
                out = [(k, x) for k, x in out if k is not op[3]] if False else out
                hit = False
                for i, (k, x) in enumerate(out):
                    if k is op[3]:
                        out[i] = (k, op[4])
                        hit = True
                if not hit:
                    out.append((op[3], op[4]))
            elif op[0] == 'set' and not op[1] and is_leaf(op[3]) and is_const(op[3].leaf) and any(k is op[3] for k, _ in out):
                out = [(k, ite(op[2], op[4], x)) if k is op[3] else (k, x) for k, x in out]
            else:
                return None
        return out

    def unrolled(self, s, items, st):
        loop = Loop()
        self.loopstack = getattr(self, 'loopstack', [])
        for it in items:
            if st.pc is F:
                break
            self.assign(s.target, it, st, s)
            self.loopstack.append(loop)
            self.exec_block(s.body, st)
            self.loopstack.pop()
            if loop.conts:
                st.set(self.merge([st.clone()] + loop.conts))
                loop.conts = []
        if s.orelse and st.pc is not F:
            self.exec_block(s.orelse, st)
        if loop.breaks:
            st.set(self.merge([st.clone()] + loop.breaks))

    def x_While(self, s, st):
        if self.spec:
            loop = Loop()
            self.loopstack = getattr(self, 'loopstack', [])
            for _ in range(self.unroll):
                c = restrict(truth(self.fz(self.ev(s.test, st), st)), st.pc)
                if st.pc is F:
                    return
                if c is F:
                    if s.orelse:
                        self.exec_block(s.orelse, st)
                    if loop.breaks:
                        st.set(self.merge([st.clone()] + loop.breaks))
                    return
                if c is not T:
                    break
                self.loopstack.append(loop)
                self.exec_block(s.body, st)
                self.loopstack.pop()
                if loop.conts:
                    st.set(self.merge([st.clone()] + loop.conts))
                    loop.conts = []
                if st.pc is F:
                    if loop.breaks:
                        st.set(self.merge([st.clone()] + loop.breaks))
                    return
            else:
                self.note('loop bound')
            if loop.breaks:
                self.note('partly unrolled loop with break')
        depth = sum(1 for c in self.loops if c[0] == 'while')
        self.generic_loop(s, (('while', depth, getattr(s, 'lineno', 0)),), T, None, st, test=s.test)

    def x_Break(self, s, st):
        self.loopstack[-1].breaks.append(st.clone())
        st.pc = F

    def x_Continue(self, s, st):
        self.loopstack[-1].conts.append(st.clone())
        st.pc = F

    def generic_loop(self, s, chain, g, v, st, test=None):
        self.loopstack = getattr(self, 'loopstack', [])
        pre = st.clone()
        lid = ('L', len(self.loops), chain[-1] if chain[-1][0] != 'while' else ('while', chain[-1][1]))
        modv, modf, modc = set(), set(), set()
        self.pointwise[lid] = {}
        # discover what the body changes (to a fixed point)
        for _ in range(4):
            self.quiet += 1
            nref = self.nref
            try:
                end, loop, rets, _, _ = self.loop_body(s, chain, g, v, pre, lid, modv, modf, modc, test, probe=True)
            finally:
                self.quiet -= 1
            nv = {k for k in end.env if k in pre.env and end.env[k] is not self.head_env(pre, k, lid, modv)} | modv
            nf = {k for k in end.fields if end.fields[k] is not self.head_field(pre, k, lid, modf)} | modf
            nc = {k for k in end.conts if k in pre.conts and len(end.conts[k].ops) > len(self.head_cont(pre, k, lid, modc).ops)} | modc
            nc |= {k for k in end.conts if k not in pre.conts and k[0] != 'ref' and end.conts[k].ops} | modc
            if (nv, nf, nc) == (modv, modf, modc):
                break
            modv, modf, modc = nv, nf, nc
        # containers written only at the key of the current iteration
        pw = {}
        for k in modc:
            head = self.head_cont(pre, k, lid, modc)
            new = end.conts[k].ops[len(head.ops):] if k in end.conts else ()
            last = ('elem',) + tuple(chain[-1][:2])
            if new and chain[-1][0] != 'while' and all(
                    op[0] in ('set', 'del') and is_leaf(op[3]) and op[3].leaf == last for op in new):
                same = all(op[0] == 'set' for op in new) and (
                    unwrap(chain[-1][0]) in [unwrap(x) for x in leaves(self.fzt(k, pre))])
                pw[k] = (last, same)
        self.pointwise[lid] = pw
        nocut = T
        if test is None and (any(x.pc is not F for x in loop.breaks) or any(x[0] is not F for x in rets)):
            # what happens for an element only happens if no earlier element left the loop
            nocut = bnot(atom(('cut', chain)))
        end, loop, rets, raises, cond = self.loop_body(s, chain, band(g, nocut), v, pre, lid, modv, modf, modc, test)
        if nocut is not T:
            # what leaves the loop early, for the rules that need to know
            tm.CUTS[chain] = bor(*([restrict(x.pc, band(pre.pc, nocut)) for x in loop.breaks] + [restrict(x[0], band(pre.pc, nocut)) for x in rets]))
        fr = self.stack[-1][1]
        # exits from inside the body
        exit_g = F
        qchain = chain
        for (pc, val, rst) in rets:
            inner = restrict(pc, band(pre.pc, nocut))
            eg = mk_exists(qchain, inner)
            exit_g = bor(exit_g, eg)

            def wrap(x):
                if any(mentions(leaf(x), c) for c in chain) or tmentions(x, lid) or self._mentions_mu(x, lid):
                    return leaf(('first', qchain, inner, x))
                return leaf(x)
            val = bind(val, wrap)
            gg = band(pre.pc, eg)
            rst.pc = gg
            fr.rets.append((gg, val, rst))
        for r in raises:
            inner = restrict(r.guard, band(pre.pc, nocut))
            eg = mk_exists(qchain, inner)
            exit_g = bor(exit_g, eg)
            r.guard = band(pre.pc, eg)
        # state after the loop
        out = pre.clone()
        ends = [x for x in [end] + loop.breaks if x.pc is not F]
        allend = self.merge(ends) if ends else end
        for k in modv:
            init, nxt = pre.env.get(k, leaf(UNDEF)), allend.env.get(k, leaf(UNDEF))
            out.env[k] = self.after(lid, k, init, restrict(nxt, allend.pc), chain, pre, bool(loop.breaks))
        for k in set(allend.env) - set(pre.env):
            out.env[k] = self.after(lid, k, leaf(UNDEF), restrict(allend.env[k], allend.pc), chain, pre, bool(loop.breaks))
        for k in modf:
            init = pre.fields.get(k, self.init_field(k))
            nxt = allend.fields.get(k, init)
            out.fields[k] = self.after(lid, k, init, restrict(nxt, allend.pc), chain, pre, bool(loop.breaks))
        for k in allend.fields:
            if k not in pre.fields and k not in modf:
                out.fields[k] = allend.fields[k]
        for k, o in allend.conts.items():
            if k not in pre.conts:
                ops = tuple(op for op in o.ops if op[0] != 'havoc')
                out.conts[k] = Obj(o.kind, o.base, ops, o.depth)
            elif k in modc:
                ops = tuple(op for op in o.ops if op[0] != 'havoc')
                out.conts[k] = Obj(o.kind, o.base, ops, o.depth)
        out.pc = band(pre.pc, bnot(exit_g))
        if s.orelse and out.pc is not F:
            self.exec_block(s.orelse, out)
        if test is not None and not loop.breaks and out.pc is not F:
            self.quiet += 1
            try:
                tmp = out.clone()
                c = truth(self.fz(self.ev(test, tmp), tmp))
            finally:
                self.quiet -= 1
            out.pc = band(out.pc, bnot(c))
        st.set(out)

    def _mentions_mu(self, x, lid):
        if isinstance(x, tuple):
            if x and x[0] == 'mu' and x[1] == lid:
                return True
            return any(self._mentions_mu(y, lid) for y in x)
        return False

    def head_env(self, pre, k, lid, modv):
        return leaf(('mu', lid, k)) if k in modv else pre.env.get(k)

    def head_field(self, pre, k, lid, modf):
        if k in modf:
            return leaf(('mu', lid, k))
        return pre.fields.get(k, self.init_field(k))

    def head_cont(self, pre, k, lid, modc):
        o = pre.conts.get(k) or Obj('loc', k, (), 0)
        if k in modc:
            return Obj(o.kind, o.base, o.ops + (('havoc', (), T, leaf(('mu', lid, k)),
                                                 self.pointwise.get(lid, {}).get(k)),), o.depth)
        return o

    def loop_body(self, s, chain, g, v, pre, lid, modv, modf, modc, test, probe=False):
        st = pre.clone()
        for k in modv:
            st.env[k] = leaf(('mu', lid, k))
        for k in modf:
            st.fields[k] = leaf(('mu', lid, k))
        for k in modc:
            st.conts[k] = self.head_cont(pre, k, lid, modc)
        fr = self.stack[-1][1]
        saved_rets, fr.rets = fr.rets, []
        sink = []
        self.raise_sinks = getattr(self, 'raise_sinks', [])
        self.raise_sinks.append(sink)
        loop = Loop()
        self.loops.extend(chain)
        self.loopstack.append(loop)
        cond = None
        try:
            if test is not None:
                cond = truth(self.fz(self.ev(test, st), st))
                st.pc = band(st.pc, cond)
            else:
                st.pc = band(st.pc, g)
                self.assign(s.target, v, st, s)
            if st.pc is not F:
                self.exec_block(s.body, st)
        finally:
            self.loopstack.pop()
            del self.loops[len(self.loops) - len(chain):]
            self.raise_sinks.pop()
        rets, fr.rets = fr.rets, saved_rets
        ends = [x for x in [st] + loop.conts if x.pc is not F]
        end = self.merge(ends) if ends else st
        return end, loop, rets, sink, cond

    def after(self, lid, k, init, nxt, chain, pre, has_break):
        """value after the loop of something assigned in the body"""
        mu = ('mu', lid, k)
        others = [x for x in leaves(nxt) if x != mu]
        if not others:
            return init
        # flag / constant pattern: value independent of the iteration
        if all(is_const(x) or not (self._mentions_mu(x, lid) or any(mentions(leaf(x), c) for c in chain)) for x in others) \
                and len(others) == 1 and not self._node_mu(nxt, lid, only_atoms=True):
            cond = bind(nxt, lambda x: F if x == mu else T)
            ex = mk_exists(chain, cond)
            return ite(ex, leaf(others[0]), init)
        self.loopinfo[(lid, k)] = (init, nxt, chain)
        return leaf(('loopval', lid, k if isinstance(k, str) else k, init, nxt))

    def _node_mu(self, n, lid, only_atoms=False):
        from .mtbdd import atoms_of
        return any(self._mentions_mu_deep(a, lid) for a in atoms_of(n))

    def _mentions_mu_deep(self, x, lid):
        if isinstance(x, Node):
            return any(self._mentions_mu_deep(y, lid) for y in leaves(x)) or self._node_mu(x, lid)
        if isinstance(x, tuple):
            if x and x[0] == 'mu' and x[1] == lid:
                return True
            return any(self._mentions_mu_deep(y, lid) for y in x)
        return False

    # try ------------------------------------------------------------------------
    def x_Try(self, s, st):
        pre = st.clone()
        col = {'raises': [], 'risky': [], 'depth': len(self.stack)}
        self.collectors.append(col)
        fr = self.stack[-1][1]
        loop = self.loopstack[-1] if getattr(self, 'loopstack', None) else None
        nret = len(fr.rets)
        nbr = (len(loop.breaks), len(loop.conts)) if loop is not None else (0, 0)
        try:
            self.exec_block(s.body, st)
        finally:
            self.collectors.pop()
        ends = []
        risky = col['risky']
        handlers = []
        for h in s.handlers:
            handlers.append((self.handler_types(h, pre), h))
        taken = [F] * len(handlers)
        hstates = [[] for _ in handlers]
        hnames = [[] for _ in handlers]
        for r, rst in col['raises']:
            anc = exc_ancestors(r.exc, self.prog)
            for i, (types, h) in enumerate(handlers):
                if types is None or any(t in anc for t in types):
                    hstates[i].append(rst)
                    hnames[i].append(r.exc)
                    break
            else:
                self.reraise(r, rst)
        if risky and handlers:
            sig = []
            for x in risky:
                for y in leaves(x):
                    if y not in sig:
                        sig.append(y)
            sig = tuple(sig[:6])
            used = F
            for i, (types, h) in enumerate(handlers):
                ra = self.raise_hint(types, sig) if self.raise_hint else None
                if ra is None:
                    ra = atom(('raises', types if types is not None else ('BaseException',), sig))
                g = band(ra, bnot(used))
                used = bor(used, ra)
                hs = st.clone() if st.pc is not F else pre.clone()
                # effects of the body may or may not have happened: use the state before it
                hs = pre.clone()
                hs.pc = band(pre.pc, g)
                if hs.pc is not F:
                    # collected raises of inlined code are disjoint from implicit ones
                    for (_, rst) in col['raises']:
                        hs.pc = band(hs.pc, bnot(rst.pc))
                    if hs.pc is not F:
                        hstates[i].append(hs)
                        hnames[i].append(types[0] if types and len(types) == 1 else '<implicit>')
            st.pc = band(st.pc, bnot(used))
            # leaving the body early requires that nothing was raised before
            for i in range(nret, len(fr.rets)):
                pc, v, rs = fr.rets[i]
                rs.pc = band(rs.pc, bnot(used))
                fr.rets[i] = (rs.pc, v, rs)
            fr.rets[nret:] = [x for x in fr.rets[nret:] if x[0] is not F]
            if loop is not None:
                for x in loop.breaks[nbr[0]:] + loop.conts[nbr[1]:]:
                    x.pc = band(x.pc, bnot(used))
        else:
            for x in risky:
                self.risky(x)
        if s.orelse and st.pc is not F:
            self.exec_block(s.orelse, st)
        ends.append(st.clone())
        self.handling = getattr(self, 'handling', [])
        for i, (types, h) in enumerate(handlers):
            if not hstates[i]:
                continue
            hs = self.merge(hstates[i])
            nm = hnames[i][0] if len(set(hnames[i])) == 1 else '<any>'
            if h.name:
                hs.env[h.name] = leaf(('exc', nm))
            self.handling.append(nm)
            self.exec_block(h.body, hs)
            self.handling.pop()
            ends.append(hs)
        out = self.merge([e for e in ends]) if ends else st
        if s.finalbody and out.pc is not F:
            self.exec_block(s.finalbody, out)
        st.set(out)

    def reraise(self, r, rst):
        if self.collectors:
            d = self.collectors[-1].get('depth', len(self.stack))
            if d < len(self.stack) and self.stack[d][1].caller_env is not None:
                rst = rst.clone()
                rst.env = dict(self.stack[d][1].caller_env)
            self.collectors[-1]['raises'].append((r, rst))
        elif not self.quiet:
            self.raises.append(r)

    def handler_types(self, h, st):
        if h.type is None:
            return None
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            self.quiet += 1
            v = self.ev(e, st)
            self.quiet -= 1
            for t in leaves(v):
                if t[0] == 'tuple':
                    out += [x[1].split('.')[-1] for x in t[1] if x[0] in ('ext', 'class')]
                elif t[0] in ('ext', 'class'):
                    out.append(t[1].split('.')[-1])
                else:
                    out.append('<unknown>')
        return tuple(out)

    def x_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        self.exec_block(s.body, st)

    # expressions ------------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('expression %s not modelled' % type(e).__name__)
            return leaf(('opaque', type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e, st)

    def evf(self, e, st):
        return self.fz(self.ev(e, st), st)

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return leaf(('const', 'ellipsis', '...'))
        return cnode(v)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            return st.env[n]
        fr = self.stack[-1][1]
        if n == '__class__' and fr.cls:
            return leaf(('class', fr.cls.name))
        m = fr.func.module
        r = self.prog.resolve_name(m, n)
        if r is None:
            # class level names while evaluating class constants
            if fr.cls is not None and isinstance(fr.func, _ModuleFunc):
                k = fr.cls.find_const(n)
                if k is not None:
                    return self.ev_const(k[1], k[0].module, k[0])
            return leaf(('ext', n))      # builtin
        return self.resolved(r, n)

    def resolved(self, r, n):
        if isinstance(r, Module):
            return leaf(('mod', r.name))
        if isinstance(r, Cls):
            return leaf(('class', r.name))
        if isinstance(r, Func):
            return leaf(('func', r.module.name, r.name))
        if isinstance(r, tuple) and r[0] == 'const':
            m, name = r[1], r[2]
            vals = m.assigns[name]
            if len(vals) == 1 and vals[0] is not None:
                return self.ev_const(vals[0], m)
            return leaf(('global', m.name, name))
        if isinstance(r, tuple) and r[0] == 'ext':
            return leaf(('ext', _canon_ext(r[1])))
        return leaf(('ext', n))

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.get_attr(o, e.attr, st, e)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st, as_tuple=True)
        vs = [self.ev(x, st) for x in e.elts]
        r = lift(lambda *xs: leaf(('tuple', tuple(xs))), *vs)
        if r is None:
            r = leaf(('tuple', tuple(('gated', v) if not is_leaf(v) else v.leaf for v in vs)))
        return r

    def e_List(self, e, st, as_tuple=False):
        r = self.new_ref(st, 'list')
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self._add_ops(r, 'extend', self.evf(x.value, st), st)
            else:
                v = self.ev(x, st)
                self._add_ops(r, 'append', v, st)
        if as_tuple:
            return self.fz(leaf(r), st)
        return leaf(r)

    def _add_ops(self, r, what, v, st):
        self.quiet += 1
        self.mutate(leaf(r), what, [v], st, None)
        self.quiet -= 1
        # ops made while building a fresh literal are unconditional
        o = st.conts[r]
        st.conts[r] = Obj(o.kind, o.base, tuple((op[0], op[1], restrict(op[2], st.pc)) + tuple(op[3:]) for op in o.ops), o.depth)

    def e_Set(self, e, st):
        r = self.new_ref(st, 'set')
        for x in e.elts:
            self._add_ops(r, 'append', self.ev(x, st), st)
        return leaf(r)

    def e_Dict(self, e, st):
        r = self.new_ref(st, 'dict')
        for k, x in zip(e.keys, e.values):
            if k is None:
                v = self.evf(x, st)
                self.quiet += 1
                self.mutate(leaf(r), 'update', [v], st, None)
                self.quiet -= 1
            else:
                kv = self.evf(k, st)
                v = self.ev(x, st)
                self.quiet += 1
                self.mutate(leaf(r), 'setitem', [kv, v], st, None)
                self.quiet -= 1
        o = st.conts[r]
        st.conts[r] = Obj(o.kind, o.base, tuple((op[0], op[1], restrict(op[2], st.pc)) + tuple(op[3:]) for op in o.ops), o.depth)
        return leaf(r)

    def e_JoinedStr(self, e, st):
        parts, vs = [], []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                v = self.evf(x.value, st)
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    v = bind(v, lambda t: leaf(('call', 'format', (t,), ())))
                parts.append(None)
                vs.append(v)

        def f(*xs):
            it = iter(xs)
            return leaf(mk_fmt([next(it) if p is None else p for p in parts]))
        return tm._lift(f, *vs)

    def e_FormattedValue(self, e, st):
        return self.evf(e.value, st)

    def e_IfExp(self, e, st):
        c = truth(self.evf(e.test, st))
        if c is T:
            return self.ev(e.body, st)
        if c is F:
            return self.ev(e.orelse, st)
        a, b = st.clone(), st.clone()
        a.pc, b.pc = band(st.pc, c), band(st.pc, bnot(c))
        va = self.ev(e.body, a) if a.pc is not F else leaf(UNDEF)
        vb = self.ev(e.orelse, b) if b.pc is not F else leaf(UNDEF)
        if a.pc is F:
            st.set(b)
            return vb
        if b.pc is F:
            st.set(a)
            return va
        st.set(self.merge([a, b]))
        return ite(c, va, vb)

    def e_BoolOp(self, e, st):
        is_or = isinstance(e.op, ast.Or)
        v = self.ev(e.values[0], st)
        for x in e.values[1:]:
            c = truth(self.fz(v, st))
            need = bnot(c) if is_or else c
            if band(st.pc, need) is F:
                return v
            a, b = st.clone(), st.clone()
            a.pc, b.pc = band(st.pc, need), band(st.pc, bnot(need))
            w = self.ev(x, a)
            if b.pc is F:
                st.set(a)
            else:
                st.set(self.merge([a, b]))
            v = ite(c, v, w) if is_or else ite(c, w, v)
        return v

    def e_UnaryOp(self, e, st):
        v = self.evf(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(truth(v))
        if isinstance(e.op, ast.USub):
            return bind(v, mk_neg)
        if isinstance(e.op, ast.UAdd):
            return v
        return bind(v, lambda t: bnot(mk_truth(t)) if t in (TRUE, FALSE) else leaf(('call', 'invert', (t,), ())))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        op = _OPS.get(type(e.op), '?')
        return self.binop(op, a, b, st, e)

    def binop(self, op, a, b, st, node=None):
        fa, fb = self.fz(a, st), self.fz(b, st)
        if op in ('|', '&') and (tm.is_guard(fa) or tm.is_guard(fb)):
            ga, gb = truth(fa), truth(fb)
            return bor(ga, gb) if op == '|' else band(ga, gb)
        r = lift(lambda x, y: mk_bin(op, x, y), fa, fb)
        if r is None:
            return leaf(('bin', op, ('gated', fa), ('gated', fb)))
        if node is not None:
            self.emit('binop', op, st, node, args=[fa, fb], result=r)
        return r

    def e_Compare(self, e, st):
        left = self.evf(e.left, st)
        out = T
        for op, c in zip(e.ops, e.comparators):
            right = self.evf(c, st)
            out = band(out, self.compare(op, left, right, st, e))
            left = right
        return out

    def compare(self, op, a, b, st, node):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            b = self._contains_target(b, st)
        f = {'Eq': mk_eq, 'NotEq': lambda x, y: bnot(mk_eq(x, y)), 'Lt': mk_lt, 'LtE': mk_le,
             'Gt': lambda x, y: mk_lt(y, x), 'GtE': lambda x, y: bnot(mk_lt(x, y)),
             'In': lambda x, y: self.contains(x, y, st, node), 'NotIn': lambda x, y: bnot(self.contains(x, y, st, node)),
             'Is': self.mk_is, 'IsNot': lambda x, y: bnot(self.mk_is(x, y))}[n]
        r = lift(f, a, b)
        if r is None:
            return atom(('truth', ('cmp', n, ('gated', a), ('gated', b))))
        return r

    def _contains_target(self, b, st):
        return b

    def contains(self, x, y, st, node):
        c = self.typeof(y)
        if c is not None:
            f = c.find('__contains__')
            if f is not None and f.qual not in self.stop and not any(fr.func.node is f.node for _, fr in self.stack):
                r = self.call_func(f, c, [leaf(x)], {}, None, None, st, node, selfv=leaf(y))
                if r is not None:
                    return truth(self.fz(r, st))
        return mk_in(x, y)

    def mk_is(self, a, b):
        if NONE in (a, b):
            return mk_eq(a, b)
        if a == b:
            return T
        if is_const(a) and is_const(b):
            return mk_eq(a, b)
        # `x is True` on something that is a boolean expression
        return mk_eq(a, b)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            f = self.fz(o, st)
            lo = self.evf(e.slice.lower, st) if e.slice.lower is not None else cnode(None)
            hi = self.evf(e.slice.upper, st) if e.slice.upper is not None else cnode(None)
            sp = self.evf(e.slice.step, st) if e.slice.step is not None else cnode(None)
            return tm._lift(mk_slice, f, lo, hi, sp)
        k = self.evf(e.slice, st)
        return self.subscript(o, k, st, e)

    def _surely_absent(self, t, k, st):
        """a key that a dictionary of constant keys certainly does not have"""
        if t in st.conts:
            o = st.conts[t]
            ops = o.ops if o.kind == 'dict' and o.base is None else None
        else:
            while t[0] in ('dcopy', 'scopy'):
                t = t[1]
            ops = tm.dict_ops(t) if t[0] == 'dict' else None
        return ops is not None and all(op[0] in ('set', 'del') and not op[1] and is_leaf(op[3]) and is_const(op[3].leaf) and
                                       (op[0] == 'del' or op[3].leaf != k) for op in ops)

    def subscript(self, o, k, st, node):
        if self.spec and is_leaf(o) and is_leaf(k) and is_const(k.leaf) and self._surely_absent(o.leaf, k.leaf, st):
            self.do_raise('KeyError', st.pc, st.clone(), node)
            st.pc = F
            return leaf(tm.UNDEF)
        def one(t, kk):
            c = self.loc_type(t, st)
            if c is not None:
                f = c.find('__getitem__')
                if f is not None and f.qual not in self.stop:
                    r = self.call_func(f, c, [leaf(kk)], {}, None, None, st, node, selfv=leaf(t))
                    if r is not None:
                        return r
            ft = self.fzt(t, st)
            # element objects stored in a tracked container keep their identity
            if t in st.conts and st.conts[t].kind in ('dict',) and st.conts[t].base is None:
                o_ = st.conts[t]
                ops = tuple(('set', op[1], self.rel(op[2], st), op[3], op[4]) if op[0] == 'set'
                            else self.fz_op(op, st, 0) for op in o_.ops)
                return mk_index(('dict', ops), kk)
            if t in st.conts and st.conts[t].kind in ('list',) and st.conts[t].base is None:
                o_ = st.conts[t]
                if all(op[0] == 'add' and not op[1] for op in o_.ops):
                    ops = tuple(('add', op[1], self.rel(op[2], st), op[3]) for op in o_.ops)
                    return mk_index(('list', ops), kk)
            return bind(ft, lambda x: mk_index(x, kk))
        r = lift(one, o, k)
        if r is None:
            r = leaf(('index', ('gated', self.fz(o, st)), ('gated', k)))
        if any(x[0] == 'index' for x in leaves(r)):
            self.risky(r)
        self.emit('getitem', '', st, node, recv=o, args=[k], result=r)
        return r

    def e_Slice(self, e, st):
        return leaf(('slicekey',))

    def e_Starred(self, e, st):
        return bind(self.evf(e.value, st), lambda t: leaf(('starred', t)))

    def e_Lambda(self, e, st):
        fr = self.stack[-1][1]
        self.nref += 1
        t = ('closure', self.nref)
        self.closures = getattr(self, 'closures', {})
        self.closures[t] = Closure(e, fr, st)
        return leaf(t)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else cnode(None)
        fr = self.stack[-1][1]
        if fr.gen_ref is not None:
            self.quiet += 1
            self.mutate(leaf(fr.gen_ref), 'append', [v], st, e)
            self.quiet -= 1
        return leaf(('sent',))

    def e_YieldFrom(self, e, st):
        v = self.evf(e.value, st)
        fr = self.stack[-1][1]
        if fr.gen_ref is not None:
            self.quiet += 1
            self.mutate(leaf(fr.gen_ref), 'extend', [v], st, e)
            self.quiet -= 1
        return cnode(None)

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list', lambda s: self.ev(e.elt, s))

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'list', lambda s: self.ev(e.elt, s))

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set', lambda s: self.ev(e.elt, s))

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict', None)

    def comp(self, e, st, kind, elt):
        ref = self.new_ref(st, kind)
        saved = dict(st.env)

        def rec(i):
            if st.pc is F:
                return
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.evf(e.key, st)
                    v = self.ev(e.value, st)
                    self.quiet += 1
                    self.mutate(leaf(ref), 'setitem', [k, v], st, e)
                    self.quiet -= 1
                else:
                    v = elt(st)
                    self.quiet += 1
                    self.mutate(leaf(ref), 'append', [v], st, e)
                    self.quiet -= 1
                return
            gen = e.generators[i]
            it = self.evf(gen.iter, st)

            def body(guard, v):
                pc = st.pc
                st.pc = band(st.pc, guard)
                if st.pc is F:
                    st.pc = pc
                    return
                self.assign(gen.target, v, st, e)
                for c in gen.ifs:
                    g = truth(self.evf(c, st))
                    st.pc = band(st.pc, g)
                    if st.pc is F:
                        break
                rec(i + 1)
                st.pc = pc
            items = self.const_items(it)
            if items is not None and len(items) <= self.unroll:
                for x in items:
                    body(T, x)
                return
            it = self.name_iter(it)
            for g, t in cases(it):
                if band(st.pc, g) is F:
                    continue
                its = self.const_items_t(t)
                if its is not None and len(its) <= self.unroll:
                    for x in its:
                        body(g, x)
                    continue
                chain, cg, v = self.iter_binding(t)
                self.loops.extend(chain)
                try:
                    body(band(g, cg), v)
                finally:
                    del self.loops[len(self.loops) - len(chain):]
        rec(0)
        st.env = saved
        o = st.conts[ref]
        st.conts[ref] = Obj(o.kind, o.base, tuple((op[0], op[1], restrict(op[2], st.pc)) + tuple(op[3:]) for op in o.ops), o.depth)
        return leaf(ref)

    # calls ------------------------------------------------------------------
    def e_Call(self, e, st):
        # super().method(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            fr = self.stack[-1][1]
            args, kw, star, dstar = self.call_args(e, st)
            own = fr.func.cls
            cur = fr.cls or own
            f = cur.find(e.func.attr, after=own) if own in (cur.mro if cur else []) else None
            if f is not None:
                first = fr.func.node.args.args[0].arg if fr.func.node.args.args else None
                selfv = st.env.get(first) if first else None
                r = self.call_func(f, cur, args, kw, star, dstar, st, e, selfv=selfv)
                if r is not None:
                    return r
            r = leaf(('call', 'super.' + e.func.attr, (), ()))
            self.emit('call', 'super.' + e.func.attr, st, e, args=args, kw=kw, result=r)
            return r
        fv = self.ev_callee(e.func, st)
        args, kw, star, dstar = self.call_args(e, st)
        if is_leaf(fv):
            return self.call_one(fv.leaf, args, kw, star, dstar, st, e)
        cs = [(band(st.pc, g), t) for g, t in cases(fv)]
        cs = [(g, t) for g, t in cs if g is not F]
        outs, vals = [], []
        for g, t in cs:
            b = st.clone()
            b.pc = g
            v = self.call_one(t, args, kw, star, dstar, b, e)
            outs.append(b)
            vals.append((g, v))
        st.set(self.merge(outs))
        v = vals[-1][1]
        for g, x in reversed(vals[:-1]):
            v = ite(g, x, v)
        return restrict(v, st.pc)

    def ev_callee(self, fe, st):
        if isinstance(fe, ast.Attribute):
            o = self.ev(fe.value, st)

            def one(t):
                if t[0] == 'mod':
                    return self.get_attr_t(t, fe.attr, st, fe)
                if t[0] == 'ext':
                    return leaf(('ext', _canon_ext(t[1] + '.' + fe.attr)))
                if t[0] == 'class':
                    r = self.get_attr_t(t, fe.attr, st, fe)
                    if is_leaf(r) and r.leaf[0] == 'attr':
                        return leaf(('meth', t, fe.attr))
                    return r
                c = self.loc_type(t, st)
                if c is not None:
                    name = fe.attr
                    f = c.find(name)
                    if f is not None and f.kind != 'property':
                        return leaf(('bound', t, c.name, f.name))
                    if f is not None or name == '__class__':
                        return self.get_attr_t(t, name, st, fe)
                if (t, fe.attr) in st.fields:
                    return st.fields[(t, fe.attr)]
                return leaf(('meth', t, fe.attr))
            return bind(o, one)
        return self.ev(fe, st)

    def call_args(self, e, st):
        args, kw, star, dstar = [], {}, None, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.evf(a.value, st)
                items = self.const_items(v)
                if items is not None:
                    args += items
                else:
                    star = v
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                d = self.fz(v, st)
                if is_leaf(d) and d.leaf[0] == 'dict':
                    its = self._dict_items(d.leaf)
                    if its is not None and all(is_str_const(x.leaf) for x, _ in its):
                        for x, y in its:
                            kw[x.leaf[2]] = y
                        continue
                dstar = (dstar or []) + [v]
            else:
                kw[k.arg] = self.ev(k.value, st)
        return args, kw, star, dstar

    def find_func(self, t):
        if t[0] == 'func':
            return self.prog.modules[t[1]].funcs[t[2]], None
        if t[0] in ('cmeth',):
            c = self.prog.cls(t[1])
            return c.find(t[2]), c
        return None, None

    def call_one(self, t, args, kw, star, dstar, st, node):
        h = t[0]
        if h == 'closure':
            c = self.closures[t]
            f = Func.__new__(Func)
            f.module, f.cls, f.node, f.kind = c.frame.func.module, None, c.node, 'func'
            f.name = getattr(c.node, 'name', '<lambda>')
            f.qual = c.frame.func.qual + '.' + f.name
            # closures see the defining scope's current values
            src = st.env if self.stack[-1][1] is c.frame else c.env.env
            r = self.call_func(f, c.frame.cls, args, kw, star, dstar, st, node, closure_env=src)
            if r is not None:
                return r
            return leaf(('opaque', 'closure'))
        if h == 'func':
            f, _ = self.find_func(t)
            return self.call_pkg(f, None, None, args, kw, star, dstar, st, node)
        if h == 'cmeth':
            f, c = self.find_func(t)
            if f.kind == 'method' and args:
                return self.call_pkg(f, c, args[0], args[1:], kw, star, dstar, st, node)
            return self.call_pkg(f, c, None, args, kw, star, dstar, st, node)
        if h == 'bound':
            c = self.prog.cls(t[2])
            f = c.find(t[3])
            return self.call_pkg(f, c, leaf(t[1]), args, kw, star, dstar, st, node)
        if h == 'class':
            return self.construct(t[1], args, kw, star, dstar, st, node)
        if h == 'call' and t[1] == 'type' and len(t[2]) == 1:
            # type(x)(...): same class as x
            c = self.typeof(t[2][0])
            if c is not None:
                return self.construct(c.name, args, kw, star, dstar, st, node)
        if h == 'ext':
            return self.call_ext(t[1], args, kw, star, dstar, st, node)
        if h == 'meth':
            return self.call_method(t[1], t[2], args, kw, star, dstar, st, node)
        if h == 'call' and t[1] == 'functools.partial' and t[2]:
            pre = [leaf(x) for x in t[2][1:]]
            k2 = {k: leaf(x) for k, x in t[3]}
            k2.update(kw)
            return self.call_one(t[2][0], pre + args, k2, star, dstar, st, node)
        fargs = [self.fz(a, st) for a in args]
        fkw = {k: self.fz(v, st) for k, v in kw.items()}
        r = self.opaque_call(('val', t), fargs, fkw, star, dstar, st)
        self.emit('call', '<value>', st, node, recv=leaf(t), args=fargs, kw=fkw, result=r, raw=args)
        self.risky(r)
        return r

    def opaque_call(self, name, fargs, fkw, star, dstar, st):
        ks = sorted(fkw)
        extra = []
        if star is not None:
            extra.append(('*', self.fz(star, st)))
        for d in dstar or []:
            extra.append(('**', self.fz(d, st)))
        n = len(fargs)
        nm = name if isinstance(name, str) else 'apply'
        pre = () if isinstance(name, str) else (name[1],)
        r = lift(lambda *xs: mk_call(nm, pre + tuple(xs[:n]), tuple(zip(ks + [k for k, _ in extra], xs[n:]))),
                 *(fargs + [fkw[k] for k in ks] + [v for _, v in extra]))
        if r is None:
            r = leaf(('call', nm, pre + tuple(('gated', a) for a in fargs), tuple((k, ('gated', fkw[k])) for k in ks)))
        return r

    def call_pkg(self, f, c, selfv, args, kw, star, dstar, st, node):
        if f.qual in self.stop:
            fargs = [self.fz(a, st) for a in args]
            fkw = {k: self.fz(v, st) for k, v in kw.items()}
            bound = f.cls is not None and f.kind != 'static'
            env = None
            if star is None and not dstar:
                names = f.params()[1:] if bound else f.params()
                if len(fargs) <= len(names) and all(k in names for k in fkw):
                    env = dict(zip(names, fargs))
                    env.update(fkw)
            if f.qual in self.preds and env is not None and len(env) == 1:
                a = list(env.values())[0]
                if is_leaf(a):
                    x = a.leaf
                    while x[0] in ('dcopy', 'scopy') and tm.VAL_TEXT:
                        x = x[1]
                    if x[0] == 'val' and x[1] in tm.VAL_TEXT and f.name in ('is_num', 'parse_variables'):
                        x = tm.mk_str(x)
                    r = self.preds[f.qual](x)
                    if r is None and x[0] == 'val' and tm.VAL_TEXT:
                        r = self.call_func(f, c, args, kw, star, dstar, st, node, selfv=selfv)
                    if r is not None:
                        return r if isinstance(r, Node) else cnode(r)
            if env is not None and not f.node.args.vararg:
                # canonical: positional order of parameters
                names = f.params()[1:] if bound else f.params()
                pos, kws = [], {}
                miss = False
                for nme in names:
                    if nme in env and not miss:
                        pos.append(env[nme])
                    elif nme in env:
                        kws[nme] = env[nme]
                    else:
                        miss = True
                fargs2, fkw2 = pos, kws
            else:
                fargs2, fkw2 = fargs, fkw
            if selfv is not None and f.kind == 'method':
                fs = self.fz(selfv, st)
                r = self.opaque_call(f.qual, [fs] + fargs2, fkw2, star, dstar, st)
            else:
                r = self.opaque_call(f.qual, fargs2, fkw2, star, dstar, st)
            self.emit('call', f.qual, st, node, recv=selfv, args=fargs2, kw=fkw2, result=r, raw=list(args) + list(kw.values()))
            if dstar:
                self.events and None
            self.risky(r)
            return r
        decs = [d for d in getattr(f, 'decorators', []) if d not in ('staticmethod', 'classmethod', 'property', 'abstractmethod',
                                                                      'abc.abstractmethod')]
        r = self.call_func(f, c, args, kw, star, dstar, st, node, selfv=selfv)
        if r is not None:
            return r
        fargs = [self.fz(a, st) for a in args]
        fkw = {k: self.fz(v, st) for k, v in kw.items()}
        r = self.opaque_call(f.qual, fargs, fkw, star, dstar, st)
        self.emit('call', f.qual, st, node, recv=selfv, args=fargs, kw=fkw, result=r, raw=args)
        self.risky(r)
        return r

    def construct(self, cname, args, kw, star, dstar, st, node):
        try:
            c = self.prog.cls(cname)
        except AnalysisError:
            c = None
        fargs = [self.fz(a, st) for a in args]
        fkw = {k: self.fz(v, st) for k, v in kw.items()}
        init = c.find('__init__') if c else None
        names = init.params()[1:] if init else []
        b = {}
        for i, a in enumerate(fargs):
            b[names[i] if i < len(names) else 'arg%d' % i] = a
        b.update(fkw)
        if dstar:
            for d in dstar:
                fd = self.fz(d, st)
                for nme in names:
                    if nme not in b:
                        got = bind(fd, lambda t: lookup(t, const(nme), leaf(('absent',))))
                        if leaves(got) != [('absent',)]:
                            b[nme] = got
        order = [n for n in names if n in b] + sorted(k for k in b if k not in names)
        r = lift(lambda *xs: leaf(('new', cname, tuple(zip(order, xs)))), *[b[k] for k in order])
        if r is None:
            r = leaf(('new', cname, tuple((k, b[k].leaf if is_leaf(b[k]) else ('gated', b[k])) for k in order)))
        self.emit('new', cname, st, node, args=[], kw=b, result=r, raw=list(args) + list(kw.values()))
        self.risky(r)
        return r

    # external functions ------------------------------------------------------
    def call_ext(self, name, args, kw, star, dstar, st, node):
        n = len(args)
        if name in self.ext:
            r = self.ext[name]([self.fz(a, st) for a in args])
            if isinstance(r, list):
                r = leaf(self.new_ref(st, 'list', ops=[('add', (), T, x) for x in r]))
            elif isinstance(r, dict):
                r = self.given_dict(r, st)
            elif isinstance(r, str):        # the call raises
                self.do_raise(r, st.pc, st.clone(), node)
                st.pc = F
                r = leaf(tm.UNDEF)
            if r is not None:
                return r
        if name in ('copy.deepcopy', 'copy.copy') and n == 1 and is_leaf(args[0]) and args[0].leaf[0] == 'val':
            return args[0]
        if name in ('copy.deepcopy',) and n >= 1:
            return self.deepcopy(args[0], st, node)
        if name == 'copy.copy' and n == 1:
            return self.shallow(args[0], st, node)
        if name in ('print', 'warnings.warn'):
            return cnode(None)
        if name == 'isinstance' and n == 2:
            return self.isinst(self.fz(args[0], st), self.fz(args[1], st))
        if name == 'issubclass' and n == 2:
            return self.opaque_ext(name, args, kw, star, dstar, st, node)
        if name in ('min', 'max') and n == 1 and self.spec and set(kw) == {'key'}:
            xs = self.const_items(self.fz(args[0], st))
            ys = None if not xs else self.sort_items(xs, kw['key'], T if name == 'max' else None, st, node)
            if ys is not None:
                return ys[0]
        if name in ('any', 'all') and n == 1:
            f = self.fz(args[0], st)
            return bind(f, lambda t: self.anyall(name, t))
        if name in ('list', 'tuple', 'set', 'frozenset', 'iter', 'collections.deque'):
            if n == 0:
                return leaf(self.new_ref(st, 'list' if name != 'set' else 'set'))
            f = self.fz(args[0], st)
            if name == 'iter':
                return args[0]
            if name == 'tuple':
                def tup(t):
                    items = self.const_items_t(t)
                    if items is not None and all(is_leaf(x) for x in items):
                        return leaf(('tuple', tuple(x.leaf for x in items)))
                    return leaf(t) if t[0] in ('list', 'sorted') else leaf(frozen_list(self.list_ops(t)))
                return bind(f, tup)
            if name in ('set', 'frozenset'):
                return bind(f, lambda t: leaf(('setof', frozen_list(self.list_ops(t)) if t[0] in ('view', 'list', 'tuple') else unwrap(t))))
            r = self.new_ref(st, 'list')
            if is_leaf(f) and f.leaf[0] in ('sorted',):
                return f
            self._add_ops(r, 'extend', f, st)
            return leaf(r)
        if name == 'sorted' and n == 1:
            f = self.fz(args[0], st)
            key = None
            if 'key' in kw:
                key = self.lam(kw['key'], st, node)
            rev = self.fz(kw['reverse'], st) if 'reverse' in kw else None
            if self.spec:
                xs = self.const_items(f)
                ys = None if xs is None else self.sort_items(xs, kw.get('key'), rev, st, node)
                if ys is not None:
                    r = self.new_ref(st, 'list', ops=[('add', (), T, x) for x in ys])
                    self.emit('call', 'sorted', st, node, args=[f], result=leaf(r))
                    return leaf(r)
            r = bind(f, lambda t: leaf(('sorted', unwrap_keepset(t), key, rev)))
            self.emit('call', 'sorted', st, node, args=[f], result=r)
            return r
        if name == 'dict' and n == 1 and is_leaf(args[0]) and args[0].leaf[0] == 'val' and args[0].leaf[1] != 'dict':
            return self.opaque_ext(name, args, kw, star, dstar, st, node)
        if name in DICT_TYPES or name == 'dict':
            r = self.new_ref(st, 'dict')
            if args:
                v = self.fz(args[0], st)
                self.quiet += 1
                if is_leaf(v) and v.leaf[0] in ('list', 'tuple') and self.const_items(v) is not None \
                        and all(is_leaf(x) and x.leaf[0] == 'tuple' and len(x.leaf[1]) == 2 for x in self.const_items(v)):
                    for x in self.const_items(v):
                        self.mutate(leaf(r), 'setitem', [leaf(x.leaf[1][0]), leaf(x.leaf[1][1])], st, None)
                elif is_leaf(v) and v.leaf[0] == 'list' and len(v.leaf[1]) == 1 and is_leaf(v.leaf[1][0][3]) and \
                        v.leaf[1][0][3].leaf[0] == 'tuple' and len(v.leaf[1][0][3].leaf[1]) == 2:
                    op = v.leaf[1][0]
                    kk, vv = op[3].leaf[1]
                    o = st.conts[r]
                    st.conts[r] = Obj('dict', None, o.ops + (('set', op[1], op[2], leaf(kk), leaf(vv)),), o.depth)
                else:
                    self.mutate(leaf(r), 'update', [bind(v, lambda t: leaf(t[2]) if t[0] == 'view' and t[1] == 'items' else leaf(t))], st, None)
                self.quiet -= 1
            for k, v in kw.items():
                self.quiet += 1
                self.mutate(leaf(r), 'setitem', [cnode(k), v], st, None)
                self.quiet -= 1
            for d in dstar or []:
                self.quiet += 1
                self.mutate(leaf(r), 'update', [d], st, None)
                self.quiet -= 1
            o = st.conts[r]
            st.conts[r] = Obj(o.kind, o.base, tuple((op[0], op[1], restrict(op[2], st.pc)) + tuple(op[3:]) for op in o.ops), o.depth)
            return leaf(r)
        if name == 'dict.fromkeys' and n >= 1:
            r = self.new_ref(st, 'dict')
            f = self.fz(args[0], st)
            dv = self.fz(args[1], st) if n > 1 else cnode(None)
            ops = ()
            for g, t in cases(f):
                for op in list_ops(t, self.loops):
                    ops += (('set', op[1], band(g, op[2]), op[3], dv),)
            st.conts[r] = Obj('dict', None, ops, len(self.loops))
            return leaf(r)
        if name == 'type' and n == 1:
            f = self.fz(args[0], st)
            return bind(f, lambda t: leaf(('class', self.typeof(t).name)) if self.typeof(t) else
                        leaf(('ext', t[1])) if t[0] == 'val' else
                        leaf(('ext', type(t[2]).__name__)) if self.spec and is_const(t) and t != NONE else leaf(('call', 'type', (t,), ())))
        if name == 'numpy.issubdtype' and n == 2:
            a, b = self.fz(args[0], st), self.fz(args[1], st)
            if is_leaf(a) and a.leaf == ('call', 'type', (NONE,), ()):
                a = leaf(('ext', 'NoneType'))
            if is_leaf(a) and is_leaf(b) and a.leaf[0] == 'ext' and b.leaf[0] == 'ext' and a.leaf[1] in tm.VAL_BASES:
                x, y = a.leaf[1], b.leaf[1]
                x = {'int': 'numpy.int64', 'float': 'numpy.float32'}.get(x, x)
                if y in ('numpy.number', 'numpy.integer', 'numpy.floating', 'numpy.inexact', 'numpy.signedinteger'):
                    return T if y in tm.VAL_BASES[x] else F
        if name in ('float', 'int') and n == 1:
            a = self.fz(args[0], st)
            if is_leaf(a) and a.leaf[0] == 'val' and a.leaf[1] in tm.VAL_PY and a.leaf[1] not in ('int', 'float', 'str', 'bytes'):
                self.do_raise('TypeError', st.pc, st.clone(), node)
                st.pc = F
                return leaf(tm.UNDEF)
        if name == 'getattr' and n >= 2:
            nm = self.fz(args[1], st)
            if is_leaf(nm) and is_str_const(nm.leaf):
                return self.get_attr(args[0], nm.leaf[2], st, node)
        if name == 'hasattr' and n == 2:
            return self.opaque_ext(name, args, kw, star, dstar, st, node)
        if name in ('setattr', 'object.__setattr__') and n == 3:
            nm = self.fz(args[1], st)
            if is_leaf(nm) and is_str_const(nm.leaf):
                self.set_attr(args[0], nm.leaf[2], args[2], st, node)
                return cnode(None)
            self.emit('setattr_dyn', name, st, node, recv=args[0], args=[nm, self.fz(args[2], st)])
            return cnode(None)
        if name in ('map', 'filter') and n == 2:
            return self.mapfilter(name, args, st, node)
        if name == 'next' and n >= 1:
            f = self.fz(args[0], st)
            if is_leaf(f) and f.leaf[0] == 'list' and len(f.leaf[1]) == 1 and n == 2:
                op = f.leaf[1][0]
                ex = mk_exists(op[1], op[2])
                v = bind(op[3], lambda x: leaf(('first', op[1], op[2], x)) if any(mentions(leaf(x), c) for c in op[1]) else leaf(x))
                return ite(ex, v, self.fz(args[1], st))
            fresh = isinstance(node, ast.Call) and node.args and (isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) or
                    isinstance(node.args[0], ast.Call) and isinstance(node.args[0].func, ast.Name) and node.args[0].func.id in ('iter', 'filter', 'map'))
            if fresh and n == 2 and is_leaf(f) and f.leaf[0] == 'list' and all(op[0] == 'add' and not op[1] for op in f.leaf[1]):
                r = self.fz(args[1], st)
                for op in reversed(f.leaf[1]):
                    r = ite(op[2], op[3], r)
                return r
        if name == 're.sub' and self.spec and n >= 3 and is_leaf(args[1]) and args[1].leaf[0] in ('closure', 'func', 'bound', 'cmeth'):
            r = self.resub(args, kw, st, node)
            if r is not None:
                return r
        if name == 'functools.reduce':
            return self.opaque_ext(name, args, kw, star, dstar, st, node)
        if name in ('range', 'enumerate', 'zip', 'reversed'):
            fargs = [self.fz(a, st) for a in args]
            r = self.opaque_call(name, fargs, {k: self.fz(v, st) for k, v in kw.items()}, star, dstar, st)
            return r
        if name == 'sum' and n == 2:
            f = self.fz(args[0], st)
            s = self.fz(args[1], st)
            if is_leaf(s) and s.leaf[0] == 'list' and not s.leaf[1] and is_leaf(f) and f.leaf[0] == 'list':
                ops = ()
                for op in f.leaf[1]:
                    if not is_leaf(op[3]):
                        ops = None
                        break
                    for o2 in list_ops(op[3].leaf, list(self.loops) + list(op[1])):
                        ops += ((o2[0], tuple(op[1]) + tuple(o2[1]), band(op[2], o2[2])) + tuple(o2[3:]),)
                if ops is not None:
                    r = self.new_ref(st, 'list', ops=ops)
                    return leaf(r)
        if name == 'itertools.chain.from_iterable' and n == 1:
            f = self.fz(args[0], st)
            if is_leaf(f) and f.leaf[0] == 'list':
                ops = ()
                for op in f.leaf[1]:
                    if not is_leaf(op[3]):
                        ops = None
                        break
                    for o2 in list_ops(op[3].leaf, list(self.loops) + list(op[1])):
                        ops += ((o2[0], tuple(op[1]) + tuple(o2[1]), band(op[2], o2[2])) + tuple(o2[3:]),)
                if ops is not None:
                    return leaf(self.new_ref(st, 'list', ops=ops))
        if name == 'vars' or name == 'locals':
            return self.opaque_ext(name, args, kw, star, dstar, st, node)
        return self.opaque_ext(name, args, kw, star, dstar, st, node)

    def sort_items(self, items, key, rev, st, node):
        """constant items in order (by a key function that folds on every item), None if that is not known"""
        down = False
        if rev is not None:
            if not is_leaf(rev) or not is_const(rev.leaf) and rev not in (T, F):
                return None
            down = rev is T or is_const(rev.leaf) and bool(rev.leaf[2])
        ks = []
        for x in items:
            y = x
            if key is not None and not (is_leaf(key) and key.leaf == NONE):
                if not is_leaf(key):
                    return None
                tmp = st.clone()
                tmp.pc = T
                self.quiet += 1
                try:
                    y = self.fz(self.call_one(key.leaf, [x], {}, None, None, tmp, node), tmp)
                finally:
                    self.quiet -= 1
            if not is_leaf(y):
                return None
            try:
                ks.append(tm.pyval(y.leaf))
            except ValueError:
                return None
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=down)
        except TypeError:
            return None
        return [items[i] for i in order]

    def resub(self, args, kw, st, node):
        """re.sub with a function on constant texts"""
        pat, txt = self.fz(args[0], st), self.fz(args[2], st)
        if not (is_leaf(pat) and is_leaf(txt) and is_str_const(txt.leaf)):
            return None
        pat = pat.leaf
        fl = tm.re_flags((), tuple((k, self.fz(v, st).leaf) for k, v in kw.items() if k != 'count' and is_leaf(self.fz(v, st))))
        if pat[0] == 'call' and pat[1] == 're.compile' and len(pat[2]) == 1 and not pat[3]:
            pat = pat[2][0]
        cnt = args[3] if len(args) > 3 else kw.get('count', cnode(0))
        if not is_str_const(pat) or fl is None or len(args) > 4 or not (is_leaf(cnt) and is_const(cnt.leaf) and isinstance(cnt.leaf[2], int)):
            return None
        import re
        out, pos = [], 0
        txt = txt.leaf[2]
        try:
            ms = list(re.finditer(pat[2], txt, fl))[:cnt.leaf[2] or None]
        except re.error:
            return None
        for m in ms:
            t = ('rematch', pat[2], txt, m.span(), tuple((m.group(i), m.span(i)) for i in range((m.re.groups or 0) + 1)), tuple(sorted(m.groupdict().items())))
            tmp = st.clone()
            tmp.pc = T
            self.quiet += 1
            try:
                r = self.fz(self.call_one(args[1].leaf, [leaf(t)], {}, None, None, tmp, node), tmp)
            finally:
                self.quiet -= 1
            if not (is_leaf(r) and is_str_const(r.leaf)):
                return None
            out += [txt[pos:m.start()], r.leaf[2]]
            pos = m.end()
        out.append(txt[pos:])
        return cnode(''.join(out))

    def lam(self, v, st, node):
        """canonical form of a function value used as a key function"""
        if is_leaf(v) and v.leaf[0] == 'closure':
            c = self.closures[v.leaf]
            ps = [a.arg for a in c.node.args.args]
            xs = [leaf(('param', '$%d' % i)) for i in range(len(ps))]
            self.quiet += 1
            tmp = st.clone()
            tmp.pc = T
            try:
                r = self.call_one(v.leaf, xs, {}, None, None, tmp, node)
                r = self.fz(r, tmp)
            finally:
                self.quiet -= 1
            return ('lam', len(ps), r)
        return v

    def opaque_ext(self, name, args, kw, star, dstar, st, node):
        fargs = [self.fz(a, st) for a in args]
        fkw = {k: self.fz(v, st) for k, v in kw.items()}
        fargs = [self._lamify(a, v, st, node) for a, v in zip(fargs, args)]
        r = self.opaque_call(name, fargs, fkw, star, dstar, st)
        self.emit('call', name, st, node, args=fargs, kw=fkw, result=r,
                  raw={'args': args, 'kw': kw, 'star': star, 'dstar': dstar})
        if name not in ('len', 'str', 'bool', 'isinstance', 'type', 'abs', 'repr', 'logging.getLogger', 'id', 'dir', 'globals'):
            self.risky(r)
        return r

    def _lamify(self, f, v, st, node):
        if is_leaf(v) and v.leaf[0] == 'closure':
            l = self.lam(v, st, node)
            return leaf(l) if isinstance(l, tuple) else f
        return f

    def isinst(self, x, tv):
        names = []

        def coll(t):
            if t[0] == 'tuple':
                for y in t[1]:
                    coll(y)
            elif t[0] == 'class':
                names.append(t[1])
            elif t[0] == 'ext':
                names.append(t[1])
            elif t[0] == 'call' and t[1] == 'type' and t[2] == (NONE,):
                names.append('NoneType')
            elif t[0] == 'bin' and t[1] == '|':
                coll(t[2])
                coll(t[3])
            else:
                names.append('?' + tshow(t))
        if not is_leaf(tv):
            return atom(('truth', ('call', 'isinstance', (x.leaf if is_leaf(x) else ('gated', x), ('gated', tv)), ())))
        coll(tv.leaf)

        def one(t):
            c = self.typeof(t)
            g = F
            for n in names:
                if c is not None and n in tm.CLASS_BASES:
                    g = bor(g, T if n in tm.CLASS_BASES[c.name] else F)
                else:
                    g = bor(g, mk_isinst(t, n))
            return g
        return bind(x, one)

    def anyall(self, name, t):
        if name == 'any':
            items = self.const_items_t(t)
            if items is not None:
                return bor(*[truth(x) for x in items]) if items else F
            u = unwrap(t)
            if u[0] in ('list', 'set'):
                g = F
                for op in u[1]:
                    if op[0] != 'add':
                        return atom(('truth', t))
                    g = bor(g, mk_exists(op[1], band(op[2], truth_elem(op[3]))))
                return g
            return mk_truth(t)
        items = self.const_items_t(t)
        if items is not None:
            return band(*[truth(x) for x in items]) if items else T
        u = unwrap(t)
        if u[0] in ('list', 'set') and all(op[0] == 'add' for op in u[1]):
            g = F
            for op in u[1]:
                g = bor(g, mk_exists(op[1], band(op[2], bnot(truth(op[3])))))
            return bnot(g)
        return atom(('truth', ('call', 'all', (t,), ())))

    def mapfilter(self, name, args, st, node):
        f = self.fz(args[1], st)
        fn = args[0]
        if not is_leaf(fn):
            return self.opaque_ext(name, args, {}, None, None, st, node)
        ref = self.new_ref(st, 'list')

        def emit_one(guard, v):
            pc = st.pc
            st.pc = band(st.pc, guard)
            if st.pc is F:
                st.pc = pc
                return
            if name == 'map':
                r = self.call_one(fn.leaf, [v], {}, None, None, st, node)
                self.quiet += 1
                self.mutate(leaf(ref), 'append', [r], st, node)
                self.quiet -= 1
            else:
                if fn.leaf == NONE:
                    g = truth(self.fz(v, st))
                else:
                    g = truth(self.fz(self.call_one(fn.leaf, [v], {}, None, None, st, node), st))
                st.pc = band(st.pc, g)
                if st.pc is not F:
                    self.quiet += 1
                    self.mutate(leaf(ref), 'append', [v], st, node)
                    self.quiet -= 1
            st.pc = pc
        f = self.name_iter(f)
        for g, t in cases(f):
            items = self.const_items_t(t)
            if items is not None and len(items) <= self.unroll:
                for x in items:
                    emit_one(g, x)
                continue
            chain, cg, v = self.iter_binding(t)
            self.loops.extend(chain)
            try:
                emit_one(band(g, cg), v)
            finally:
                del self.loops[len(self.loops) - len(chain):]
        o = st.conts[ref]
        st.conts[ref] = Obj(o.kind, o.base, tuple((op[0], op[1], restrict(op[2], st.pc)) + tuple(op[3:]) for op in o.ops), o.depth)
        return leaf(ref)

    def deepcopy(self, v, st, node):
        self.emit('copy', 'deep', st, node, args=[self.fz(v, st)], raw=v)

        def one(t):
            if is_const(t):
                return leaf(t)
            if t[0] == 'ref' and t in st.conts and st.conts[t].base is None:
                o = st.conts[t]
                self.nref += 1
                r = ('ref', self.nref)
                ops = []
                for op in o.ops:
                    new = [op[0], op[1], op[2]]
                    for j, x in enumerate(op[3:]):
                        if isinstance(x, Node) and not (op[0] == 'set' and j == 0):
                            x = bind(self.fz(x, st), lambda y: leaf(y) if is_const(y) or y[0] == "val" else leaf(('dcopy', y)) if y[0] != 'dcopy' else leaf(y))
                        new.append(x)
                    ops.append(tuple(new))
                st.conts[r] = Obj(o.kind, None, tuple(ops), len(self.loops))
                return leaf(r)
            f = self.fzt(t, st)
            def mk(x):
                if is_const(x):
                    return leaf(x)
                r = self.new_ref(st, 'loc', base=('dcopy', x) if x[0] != 'dcopy' else x)
                return leaf(r)
            return bind(f, mk)
        return bind(v, one)

    def shallow(self, v, st, node):
        self.emit('copy', 'shallow', st, node, args=[self.fz(v, st)], raw=v)

        def one(t):
            if is_const(t):
                return leaf(t)
            if t[0] == 'ref' and t in st.conts and st.conts[t].base is None:
                o = st.conts[t]
                self.nref += 1
                r = ('ref', self.nref)
                st.conts[r] = Obj(o.kind, None, o.ops, len(self.loops))
                return leaf(r)
            f = self.fzt(t, st)
            return bind(f, lambda x: leaf(x) if is_const(x) else leaf(self.new_ref(st, 'loc', base=('scopy', x))))
        return bind(v, one)

    # methods on unknown receivers ------------------------------------------------
    def call_method(self, t, name, args, kw, star, dstar, st, node):
        n = len(args)
        if t[0] == 'call' and t[1] == 'logging.getLogger':
            for a in args:
                pass
            self.emit('log', name, st, node)
            return cnode(None)
        if t[0] in ('param', 'attr') and name in LOGGER_METHODS and _looks_logger(t):
            self.emit('log', name, st, node)
            return cnode(None)
        if t[0] == 'val' and t[1] in tm.VAL_PY and not hasattr(tm.VAL_PY[t[1]], name) or self.spec and is_const(t) and not hasattr(t[2], name):
            self.do_raise('AttributeError', st.pc, st.clone(), node)
            st.pc = F
            return leaf(tm.UNDEF)
        isref = t[0] == 'ref' and t in st.conts
        kind = st.conts[t].kind if isref else None
        stringy = is_stringish(t)
        if name in MUTATORS and not stringy:
            if name == 'pop' and (n >= 1 or isref):
                k = self.fz(args[0], st) if n else cnode(-1)
                cur = self.fzt(t, st)
                if n >= 2:
                    dv = self.fz(args[1], st)
                    v = bind(cur, lambda x: bind(k, lambda kk: lookup(x, kk, dv)))
                else:
                    v = tm._lift(mk_index, cur, k)
                if n >= 2 and isref and kind == 'dict' and st.conts[t].base is None and is_leaf(k) and is_const(k.leaf) and self._plain_dict(st.conts[t], st) \
                        and not any(op[3] is k for op in st.conts[t].ops):
                    return v            # nothing to take out
                self.mutate(leaf(t), 'del', [k], st, node)
                self.risky(v)
                return v
            if name == 'setdefault' and n >= 1:
                k = self.fz(args[0], st)
                dv = args[1] if n > 1 else cnode(None)
                cur = self.fzt(t, st)
                present = tm._lift(lambda x, kk: mk_in(kk, x), cur, k)
                b = st.clone()
                b.pc = band(st.pc, bnot(present))
                a = st.clone()
                a.pc = band(st.pc, present)
                if b.pc is not F:
                    self.mutate(leaf(t), 'setitem', [k, dv], b, node)
                st.set(self.merge([a, b]))
                return ite(present, tm._lift(mk_index, cur, k), dv)
            if name == 'update':
                if n:
                    v = args[0]
                    f = self.fz(v, st)
                    f = bind(f, lambda x: leaf(x[2]) if x[0] == 'view' and x[1] == 'items' else leaf(x))
                    self.mutate(leaf(t), 'update', [f], st, node)
                for k, v in kw.items():
                    self.mutate(leaf(t), 'setitem', [cnode(k), v], st, node)
                for d in dstar or []:
                    self.mutate(leaf(t), 'update', [self.fz(d, st)], st, node)
                return cnode(None)
            if name in ('append', 'add') and n == 1:
                self.mutate(leaf(t), 'append', args, st, node)
                return cnode(None)
            if name == 'insert' and n == 2:
                self.mutate(leaf(t), 'append', [args[1]], st, node)
                return cnode(None)
            if name in ('extend', '__iadd__') and n == 1:
                self.mutate(leaf(t), 'extend', args, st, node)
                return cnode(None)
            if name == '__setitem__' and n == 2:
                self.mutate(leaf(t), 'setitem', args, st, node)
                return cnode(None)
            if name == '__delitem__' and n == 1:
                self.mutate(leaf(t), 'del', args, st, node)
                return cnode(None)
            if name == 'clear' and n == 0:
                self.mutate(leaf(t), 'clear', [], st, node)
                return cnode(None)
            if name == 'sort' and isref and self.spec and not args:
                xs = self.const_items_t(self.fzt(t, st).leaf) if is_leaf(self.fzt(t, st)) else None
                rev = self.fz(kw['reverse'], st) if 'reverse' in kw else None
                ys = None if xs is None else self.sort_items(xs, kw.get('key'), rev, st, node)
                if ys is not None and st.conts[t].depth == len(self.loops):
                    o = st.conts[t]
                    st.conts[t] = Obj(o.kind, None, tuple(('add', (), T, x) for x in ys), o.depth)
                    return cnode(None)
            if name in ('sort', 'reverse', 'move_to_end'):
                self.mutate(leaf(t), name, args, st, node) if not isref else self.emit('mut', name, st, node, recv=leaf(t))
                return cnode(None)
            if name in ('remove', 'discard') and n == 1:
                self.mutate(leaf(t), 'del', args, st, node)
                return cnode(None)
            self.mutate(leaf(t), name, args, st, node)
            fargs = [self.fz(a, st) for a in args]
            return self.mres(t, name, fargs, {}, None, None, st)
        if name == 'copy' and n == 0:
            return self.shallow(leaf(t), st, node)
        fargs = [self.fz(a, st) for a in args]
        fkw = {k: self.fz(v, st) for k, v in kw.items()}
        if name == 'join' and n == 1 and is_str_const(t):
            items = self.const_items(fargs[0])
            if items is not None:
                def jn(*xs):
                    parts = []
                    for i, x in enumerate(xs):
                        if i:
                            parts.append(t[2])
                        parts.append(x)
                    return leaf(mk_fmt(parts))
                return tm._lift(jn, *items) if items else cnode('')
        if name == 'get' and 1 <= n <= 2:
            ft = self.fzt(t, st)
            c = self.loc_type(t, st)
            if c is None and (isref or all(x[0] in ('dict', 'upd', 'scopy', 'dcopy') for x in leaves(ft)) or self.is_dictish(t)):
                dv = args[1] if n > 1 else cnode(None)
                return bind(ft, lambda x: bind(fargs[0], lambda k: lookup(x, k, dv)))
        r = self.mres(t, name, fargs, fkw, star, dstar, st)
        if name not in ('keys', 'values', 'items'):
            self.emit('mcall', name, st, node, recv=self.fzt(t, st), args=fargs, kw=self._kwd(fkw, dstar, st), result=r,
                      raw={'recv': leaf(t), 'args': args, 'kw': kw, 'dstar': dstar})
            if not (stringy or name in tm.STR_METHODS or name in tm.STR_LIST_METHODS or name in ('startswith', 'endswith', 'flatten')):
                self.risky(r)
        return r

    def _kwd(self, fkw, dstar, st):
        out = dict(fkw)
        for d in dstar or []:
            out['**'] = self.fz(d, st)
        return out

    def is_dictish(self, t):
        if t[0] == 'attr' and t[1] == ('param', 'self'):
            return True     # an attribute of the object that has get() and is not an object of the package: a mapping
        return t in getattr(self, 'dict_terms', ()) or (t[0] == 'param' and t[1].startswith('**'))

    def mres(self, t, name, fargs, fkw, star, dstar, st):
        ft = self.fzt(t, st)
        ks = sorted(fkw)
        extra = []
        if star is not None:
            extra.append(('*', self.fz(star, st)))
        for d in dstar or []:
            extra.append(('**', self.fz(d, st)))
        n = len(fargs)
        r = lift(lambda rc, *xs: mk_mcall(rc, name, tuple(xs[:n]), tuple(zip(ks + [k for k, _ in extra], xs[n:]))),
                 ft, *(fargs + [fkw[k] for k in ks] + [v for _, v in extra]))
        if r is None:
            r = leaf(('mcall', t, name, tuple(('gated', a) for a in fargs), ()))
        return r


def unwrap_keepset(t):
    return t[1] if t[0] == 'sorted' else t


def truth_elem(v):
    """any([...]) over strings / objects: elements are treated as truthy unless boolean"""
    def one(t):
        if t in (TRUE, FALSE) or is_const(t):
            return mk_truth(t)
        if t[0] in ('elem', 'index', 'fmt', 'new', 'str', 'attr'):
            return T
        return mk_truth(t)
    return bind(v, one)


def _looks_logger(t):
    n = t[-1] if isinstance(t[-1], str) else ''
    return 'log' in n.lower()


def _mangle(name, cls):
    return name


class _ModuleFunc:
    def __init__(self, module):
        self.module, self.cls = module, None
        self.qual = module.name
        self.name = '<module>'
        self.kind = 'func'
        self.node = module.tree

    @property
    def where(self):
        return self.module.rel


EXT_ALIASES = {'np': 'numpy', 'pd': 'pandas'}


def _canon_ext(d):
    h = d.split('.')[0]
    if h in EXT_ALIASES:
        return EXT_ALIASES[h] + d[len(h):]
    return d


_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//',
        ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}


def _is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False
