"""C10: no failure is swallowed."""
import ast

from ..astq import walk_funcs, dotted, loc, Raises, scope
from ..program import Cls, Func

RULES = ['every exception handler of the package must raise on all its paths, unless it is one of the three narrow '
         'conversions (lookup with an explicit default, "not a number", name not in the library); '
         'no suppress(), no return / break / continue in finally']
ASSUMPTIONS = ['logging calls do not raise or swallow exceptions']

NOT_NUM = {'ValueError', 'TypeError', 'OverflowError', 'Exception'}


def check(ctx, rep):
    prog = ctx.prog
    R = Raises(prog)
    for m, cls, fn, n in walk_funcs(prog):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                rep.count('exception handlers')
                _handler(prog, rep, R, m, cls, fn, n, h)
            for s in n.finalbody:
                for x in ast.walk(s):
                    if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                        rep.bad('finally-swallows', loc(m, cls, fn, x), 'leaving a finally block this way discards the exception')
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                e = it.context_expr
                if isinstance(e, ast.Call):
                    d = dotted(prog, m, fn, e.func)
                    if isinstance(d, str) and d.split('.')[-1] == 'suppress':
                        rep.count('exception handlers')
                        types = [dotted(prog, m, fn, a) for a in e.args]
                        rep.bad('swallowed', loc(m, cls, fn, n), 'suppress(%s) discards exceptions' % types)
                    if isinstance(d, Cls):
                        ex = d.find('__exit__')
                        if ex is not None:
                            for x in ast.walk(ex.node):
                                if isinstance(x, ast.Return) and not (x.value is None or (
                                        isinstance(x.value, ast.Constant) and not x.value.value)):
                                    rep.bad('swallowed', loc(m, cls, fn, n), 'context manager %s may suppress exceptions' % d.name)
    rep.floor('exception handlers', 4)


def _types(prog, m, fn, h):
    if h.type is None:
        return None
    elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    if isinstance(h.type, ast.Name):
        r = prog.resolve_name(m, h.type.id)
        if isinstance(r, tuple) and r[0] == 'const':
            v = r[1].assigns[r[2]][0]
            if isinstance(v, ast.Tuple):
                elts = v.elts
    out = []
    for e in elts:
        d = dotted(prog, m, fn, e)
        out.append(d.name if isinstance(d, Cls) else d if isinstance(d, str) else '?')
    return out


def _handler(prog, rep, R, m, cls, fn, tr, h):
    where = loc(m, cls, fn, h)
    if R.block(h.body, m, cls, fn):
        rep.ok('handler-raises', where, 'every path of the handler raises')
        return
    types = _types(prog, m, fn, h)
    why = 'handler for %s can end without raising' % (', '.join(types) if types else 'everything')
    if types is None:
        rep.bad('swallowed', where, why)
        return
    if _is_lookup_default(prog, m, cls, fn, tr, h, types):
        rep.ok('explicit-default', where, 'lookup with the default given by the caller')
    elif _is_number_test(prog, m, cls, fn, tr, h, types):
        rep.ok('not-a-number', where, 'conversion of a text to a number')
    elif _is_library_lookup(prog, m, cls, fn, tr, h, types):
        rep.ok('input-variable', where, 'a name that is not in the library is an input variable')
    else:
        rep.bad('swallowed', where, why)


def _calls(nodes):
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Call):
                yield x


def _params(fn):
    return [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]


def _selfname(fn):
    ps = _params(fn)
    return ps[0] if ps else None


def _lookups(body):
    """the subscript loads (or __getitem__-like calls) of a try body, None when it does anything else risky"""
    subs = []
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                subs.append(x)
    return subs


def _is_lookup_default(prog, m, cls, fn, tr, h, types):
    """try: return self[key]  except KeyError: return <default parameter>"""
    if fn is None or types != ['KeyError']:
        return False
    ps = _params(fn)
    subs = _lookups(tr.body)
    calls = [c for c in _calls(tr.body)]
    ok_calls = []
    for c in calls:
        f = c.func
        # self._getitem(key, ...) / self.__getitem__(key)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == ps[0] and 'getitem' in f.attr:
            ok_calls.append(c)
        elif isinstance(f, ast.Name) and f.id == 'str':
            ok_calls.append(c)
        else:
            return False
    if len(subs) + len([c for c in ok_calls if isinstance(c.func, ast.Attribute)]) != 1:
        return False
    for x in subs:
        if not (isinstance(x.value, ast.Name) and x.value.id in ps):
            return False
        if not (isinstance(x.slice, ast.Name) and x.slice.id in ps):
            return False
    # result of the handler: a parameter of the function
    used = False
    for s in h.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Return):
                if not (isinstance(x.value, ast.Name) and x.value.id in ps):
                    return False
                used = True
            if isinstance(x, ast.Assign):
                if not (isinstance(x.value, ast.Name) and x.value.id in ps):
                    return False
                used = True
    if not used:
        # out = default before the try
        keyname = subs[0].slice.id if subs else None
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in ps and s.value.id != keyname:
                used = True
    return used


def _is_number_test(prog, m, cls, fn, tr, h, types):
    if not set(types) <= NOT_NUM or not {'ValueError', 'Exception'} & set(types):
        return False
    n = 0
    for c in _calls(tr.body):
        d = dotted(prog, m, fn, c.func)
        if d in ('float', 'int', 'complex', 'decimal.Decimal'):
            n += 1
        elif d not in ('str', 'bool', 'isinstance'):
            return False
    if n == 0:
        return False
    for s in tr.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Subscript, ast.BinOp, ast.For, ast.While)):
                return False
            if isinstance(x, ast.Return) and not (isinstance(x.value, ast.Constant) and x.value.value is True):
                return False
    # the outcome of the handler is "no": False, None or pass
    for s in h.body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Constant) and not s.value.value:
            continue
        if isinstance(s, ast.Expr):
            continue
        return False
    return True


def _is_library_lookup(prog, m, cls, fn, tr, h, types):
    """try: out = eqn_dir[expression]  except KeyError: out = Equation(expression)"""
    if types != ['KeyError'] or fn is None:
        return False
    ps = _params(fn)
    subs = _lookups(tr.body)
    if len(subs) != 1:
        return False
    x = subs[0]
    recv = x.value
    rooted = (isinstance(recv, ast.Name) and recv.id in ps) or (
        isinstance(recv, ast.Attribute) and isinstance(recv.value, ast.Name) and recv.value.id in ps)
    key = x.slice
    if isinstance(key, ast.Call) and isinstance(key.func, ast.Name) and key.func.id == 'str' and key.args:
        key = key.args[0]
    if not rooted or not (isinstance(key, ast.Name) and key.id in ps):
        return False
    if isinstance(recv, ast.Name) and recv.id in scope(fn).assigned:
        return False
    for c in _calls(tr.body):
        d = dotted(prog, m, fn, c.func)
        if d != 'str':
            return False
    if any(isinstance(y, (ast.For, ast.While, ast.If, ast.With)) for s in tr.body for y in ast.walk(s)):
        return False
    # the handler makes an Equation of the same expression, or reports "not found" to its caller
    for s in h.body:
        for y in ast.walk(s):
            if isinstance(y, ast.Call):
                d = dotted(prog, m, fn, y.func)
                if isinstance(d, Cls) and d.name == 'Equation' and y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == key.id:
                    return True
            if isinstance(y, (ast.Return, ast.Assign)) and isinstance(y.value, ast.Constant) and y.value.value is None:
                return True
    if all(isinstance(s, ast.Pass) or (isinstance(s, ast.Expr)) for s in h.body):
        # out is None afterwards: replaced by an Equation of the same expression
        for y in ast.walk(fn):
            if isinstance(y, ast.Call):
                d = dotted(prog, m, fn, y.func)
                if isinstance(d, Cls) and d.name == 'Equation' and y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == key.id:
                    return True
    return False
