"""C01: only screened equation text is evaluated."""
import ast

from .common import *
from ..engine import exc_ancestors

RULES = ['every eval / exec / compile / import-by-name site of the package is enumerated and must be reached from Equation.evaluate with '
         'the equation text attribute, unchanged, as its argument',
         'the constructor guard (gated value flow) must be unsatisfiable for every text containing a forbidden fragment, and the '
         'exception must be a ValueError',
         'every other store to the text attribute must be followed by the same screening']
ASSUMPTIONS = ['str subclasses with overridden __contains__ are not used as equation text']

TOKENS = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')
EVALS = {'eval', 'exec', 'compile', '__import__', 'execfile', 'pandas.eval', 'pandas.core.computation.eval.eval', 'numexpr.evaluate',
         'importlib.import_module', 'importlib.__import__', 'runpy.run_path', 'runpy.run_module', 'code.interact', 'builtins.eval',
         'sympy.sympify', 'numpy.safe_eval', 'timeit.timeit', 'types.FunctionType', 'ast.parse'}
EVAL_METHODS = {'eval', 'query'}
WRAPS = [('', ''), ('q', 'q'), (' ', ' '), ('q ', ' q'), ('(', ')'), ('3*', '+q'), ('q\n', '\nq'), ('q # ', ''), ("q['", "']"), ('q["', '"]'), ('np.', '()'),
         ('q, ', ', q'), ('q; ', '; q'), ('q::', '::q'), ('q\t', '\tq'), ('1', '1'), ('_', '_'), ('Q ** ', ' // Q'), ('q = ', ''), ('q if ', ' else q'), ('{', '}'), ('np.where(q > 0, ', ', 1)')]


def check(ctx, rep):
    prog = ctx.prog
    s = ctx.run('Equation', 'evaluate')
    seen = {}
    for ev in s.events:
        if ev.kind in ('call', 'new', 'mcall'):
            seen.setdefault(id(ev.node), []).append(ev)
    ctor_s = ctx.run('Equation', '__init__')
    ctor_seen = {id(ev.node): ev for ev in ctor_s.events if ev.kind == 'call'}
    attrs = set()
    sites = 0
    for m, cls, fn, n in walk_funcs(prog):
        if not isinstance(n, ast.Call):
            continue
        d = dotted(prog, m, fn, n.func)
        if isinstance(d, (Func, Cls)):
            continue
        meth = d is None and isinstance(n.func, ast.Attribute) and n.func.attr in EVAL_METHODS
        if not (d in EVALS or meth):
            continue
        if d == 'ast.parse':
            continue
        if meth and (not n.args or _own_method(ctx, n.func.attr)):
            # a method of the package with that name (analysed as package code) or no text argument
            if n.args and isinstance(n.args[0], (ast.Constant, ast.JoinedStr, ast.BinOp)):
                rep.bad('evaluator-outside-evaluate', loc(m, cls, fn, n), 'text evaluated by .%s()' % n.func.attr)
            continue
        where_ = loc(m, cls, fn, n)
        sites += 1
        rep.count('evaluator call sites')
        if n.args and isinstance(n.args[0], ast.Constant):
            rep.ok('site', where_, 'constant argument')
            continue
        evs = seen.get(id(n))
        if not evs:
            ev = ctor_seen.get(id(n))
            if ev is not None and d == 'compile':
                rep.ok('site', where_, 'compiled in the constructor')
                continue
            rep.bad('evaluator-outside-evaluate', where_,
                    'call of %s that is not the evaluation of a screened equation' % (d or n.func.attr))
            continue
        for ev in evs:
            if not ev.args:
                rep.unk('evaluated-text', where_, 'text argument not found')
                continue
            for t in leaves(ev.args[0]):
                p = peel(t)
                if p[0] == 'attr' and p[1] == SELF:
                    attrs.add(p[2])
                    rep.ok('evaluated-text', where_, 'text is %s' % show(t))
                elif tm.is_const(p):
                    rep.ok('evaluated-text', where_, 'constant text')
                else:
                    rep.bad('evaluated-text', where_, 'evaluates %s, which is not exactly the screened text' % show(t))
    # names of evaluators used as values (map(eval, ..), alias tables)
    for m, cls, fn, n in walk_funcs(prog):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('eval', 'exec', '__import__', 'compile'):
            r = prog.resolve_name(m, n.id)
            if r is not None and not (isinstance(r, tuple) and r[0] == 'ext'):
                continue
            if not _is_callee(m, n):
                ok = False
                for evs in seen.values():
                    for ev in evs:
                        if ev.name == n.id and ev.func is not None and fn is not None and ev.func.node is fn:
                            ok = True
                if not ok:
                    rep.bad('evaluator-outside-evaluate', loc(m, cls, fn, n), '%s is passed around as a value' % n.id)
    rep.floor('evaluator call sites', 1)
    if sites == 0:
        rep.unk('site', 'NRWAL', 'no evaluator call site found')
    if not attrs:
        attrs = {ctx.eqn_attr}
    for a in sorted(attrs):
        _ctor(ctx, rep, ctor_s, a)
        _stores(ctx, rep, ctor_s, a)
    _subclasses(ctx, rep)


def _own_method(ctx, name):
    return any(name in c.methods for c in ctx.classes())


def _is_callee(m, n):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call) and x.func is n:
            return True
    return False


def _witnesses(tok):
    return [a + tok + b for a, b in WRAPS]


def _implied(pc, v, tok):
    """pc with every atom that 'v contains tok' makes true set to true"""
    lits = {tok[i:j] for i in range(len(tok)) for j in range(i + 1, len(tok) + 1)}
    g = T
    for a in atoms_of(pc):
        if a[0] == 'in' and len(a) == 3 and tm.is_str_const(a[1]) and a[1][2] in lits and peel(a[2], ()) == v:
            from ..mtbdd import atom
            g = band(g, atom(a))
        elif a[0] == 'in' and len(a) == 3 and tm.is_str_const(a[1]) and a[1][2] in {x.lower() for x in lits}:
            x = peel(a[2], ())
            if x[0] == 'mcall' and x[2] in ('lower', 'casefold') and peel(x[1], ()) == v:
                from ..mtbdd import atom
                g = band(g, atom(a))
    return band(pc, g) if g is not T else pc


def _screened(ctx, pc, v, tok):
    """True: no text containing tok passes; (False, witness) / None"""
    if band(_implied(pc, v, tok), T) is F:
        return True, None
    open_ = None
    for w in _witnesses(tok):
        r = tm.subst(pc, {v: tm.const(w), ('str', v): tm.const(w)})
        if r is F:
            continue
        # atoms left: other parameters, or what the parsed variables are
        bad = [a for a in atoms_of(r) if _about_text(a, w)]
        if not bad:
            return False, w
        open_ = w
    if open_ is None:
        return True, None
    return None, open_


def _about_text(a, w):
    """an undecided predicate over the witness text other than 'name in variables of the text'"""
    k = tm.const(w)
    if not _contains(a, k):
        return False
    if a[0] == 'in' and len(a) == 3 and a[2][0] == 'call' and a[2][1].endswith('parse_variables'):
        return False
    return True


def _contains(t, k):
    if t == k:
        return True
    if isinstance(t, tuple):
        return any(_contains(x, k) for x in t)
    if hasattr(t, 'leaf'):
        return any(_contains(x, k) for x in leaves(t)) or any(_contains(x, k) for x in atoms_of(t))
    return False


def _ctor(ctx, rep, s, a):
    V = s.fz(s.state.fields.get((SELF, a), leaf(('undef',))))
    roots = {peel(t) for t in leaves(V)}
    w0 = where(s.func)
    ps = s.func.params()
    rep.count('screened text attributes')
    for r in roots:
        if tm.is_const(r):
            continue
        if r[0] != 'param':
            rep.unk('ctor-text', w0, 'text attribute holds %s' % show(r))
    for v in roots:
        if v[0] != 'param':
            continue
        for tok in TOKENS:
            ok, w = _screened(ctx, s.pc, v, tok)
            if ok is True:
                rep.ok('ctor-screens', w0, 'texts containing %r are rejected' % tok)
                _kind(ctx, rep, s, v, tok)
            elif ok is False:
                rep.bad('ctor-screens', w0, 'Equation(%r) is accepted although it contains %r' % (w, tok))
            else:
                rep.unk('ctor-screens', w0, 'rejection of texts containing %r not decided' % tok)


def _kind(ctx, rep, s, v, tok):
    w = 'q ' + tok + ' q'
    for r in s.raises:
        g = tm.subst(r.guard, {v: tm.const(w), ('str', v): tm.const(w)})
        if g is T or (g is not F and not atoms_of(g)):
            if 'ValueError' not in exc_ancestors(r.exc, ctx.prog):
                rep.bad('ctor-screens', r.where, 'forbidden fragment %r raises %s instead of ValueError' % (tok, r.exc))
            return


def _stores(ctx, rep, ctor_s, a):
    prog = ctx.prog
    ctor_nodes = {id(ev.node) for ev in ctor_s.events if ev.kind == 'setattr' and ev.name == a}
    summaries = {}
    for m, cls, fn, n, how in attr_stores(prog, a):
        rep.count('stores to the text attribute')
        w = loc(m, cls, fn, n)
        f = find_func(prog, m, cls, fn)
        if f is None:
            rep.bad('text-store', w, 'text attribute stored outside any function')
            continue
        if cls is not None and cls.name == 'Equation' and f.name == '__init__':
            rep.ok('text-store', w, 'constructor')
            continue
        # helper reached from the constructor only
        in_ctor = any(ev.kind == 'setattr' and ev.name == a and ev.func is not None and ev.func.node is fn
                      for ev in ctor_s.events)
        if in_ctor and _only_called_from(prog, f, ctor_s):
            rep.ok('text-store', w, 'part of the constructor')
            continue
        k = id(f)
        if k not in summaries:
            summaries[k] = ctx.run_func(f, cls)
        s = summaries[k]
        evs = [ev for ev in s.events if ev.kind == 'setattr' and ev.name == a]
        if not evs:
            rep.bad('text-store', w, 'text attribute %s is written without screening' % a)
            continue
        for ev in evs:
            for t in leaves(ev.args[0]):
                p = peel(t)
                if tm.is_const(p):
                    ok = not any(tok in str(p[2]) for tok in TOKENS)
                    rep.judge(ok, 'text-store', w, 'constant', 'stores a forbidden constant')
                    continue
                if p[0] == 'attr' and p[2] == a:
                    rep.ok('text-store', w, 'copy of screened text')
                    continue
                res = [_screened(ctx, s.pc, p, tok)[0] for tok in TOKENS]
                if all(x is True for x in res):
                    rep.ok('text-store', w, 'stored text is screened in the same function')
                elif any(x is False for x in res):
                    rep.bad('text-store', w, 'stores %s as equation text without screening it' % show(p))
                else:
                    rep.unk('text-store', w, 'screening of %s not decided' % show(p))


def _only_called_from(prog, f, s):
    """helper whose only call sites are ones seen inlined in summary s"""
    for m, cls, fn, n in walk_funcs(prog):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
            if fn is None:
                return False
            if not (cls is not None and cls.name == 'Equation' and fn.name == '__init__'):
                g = find_func(prog, m, cls, fn)
                if g is None or g is f:
                    return False
                if not any(ev.kind == 'inline' and ev.name == g.qual for ev in s.events):
                    return False
                if g.name.startswith('__') or not g.name.startswith('_'):
                    return False
                if not _only_called_from(prog, g, s):
                    return False
    return True


def _subclasses(ctx, rep):
    """subclasses / alternative creation routes that skip the constructor"""
    for c in ctx.classes():
        if c.name != 'Equation' and any(k.name == 'Equation' for k in c.mro):
            init = c.methods.get('__init__')
            if init is not None:
                src = [n for n in ast.walk(init.node) if isinstance(n, ast.Attribute) and n.attr == '__init__']
                rep.judge(True if src else False, 'subclass', where(init), 'calls the base constructor',
                          'subclass %s does not run the screening constructor' % c.name)
    for m, cls, fn, n in walk_funcs(ctx.prog):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__new__':
            rep.unk('creation', loc(m, cls, fn, n), 'object created without its constructor')
        if isinstance(n, ast.Attribute) and n.attr == '__dict__' and cls is not None:
            rep.unk('creation', loc(m, cls, fn, n), 'attribute dictionary accessed directly')
