"""C09: interpolation / nearest flags reach every nested object unchanged."""
from .common import *

RULES = ['every construction of an EquationGroup or EquationDirectory inside the package is enumerated from the value-flow events; each of '
         'the four flags must be passed and be equivalent (as a boolean function) to the flag of the same name of the constructing object',
         'in a config each flag must be: the config entry of that name if present, else the constructor argument of that name',
         'flag attributes are not rebound after construction']
ASSUMPTIONS = ['a flag entry of a config is not itself a pointer to another file (checked only for mixing of names)']

NESTED = ('EquationGroup', 'EquationDirectory')


def field_map(ctx, cls):
    """attr(self, X) -> value given by the constructor, for attributes set there"""
    s = ctx.run(cls, '__init__')
    out = {}
    for (o, a), v in s.state.fields.items():
        if o == SELF:
            fv = tm.val(s.fz(v))
            if is_leaf(fv):
                out[('attr', SELF, a)] = fv.leaf
    return out


def check(ctx, rep):
    covered = {}
    for cn in ('EquationGroup', 'EquationDirectory'):
        fm = field_map(ctx, cn)
        for c, f in ctx.methods(cn):
            try:
                s = ctx.run_func(f, c)
            except RecursionError:
                continue
            for ev in s.events:
                if ev.kind == 'new' and ev.name in NESTED:
                    covered[id(ev.node)] = 1
                    rep.count('constructions of nested objects analysed')
                    _site(ctx, rep, cn, f, ev, fm)
    _config(ctx, rep, covered)
    rep.floor('constructions of nested objects analysed', 5)
    _rebinding(ctx, rep)
    _ast_sites(ctx, rep, covered)


def _site(ctx, rep, cn, f, ev, fm):
    for fl in FLAGS:
        w = '%s [%s via %s.%s]' % (ev.where, fl, cn, f.name)
        if fl not in ev.kw:
            rep.bad('flag-passed', w, '%s is constructed without %s (default used instead of the own flag)' % (ev.name, fl))
            continue
        v = tm.subst(ev.kw[fl], fm)
        v = restrict(v, ev.pc)
        want = tm.mk_truth(('param', fl))
        got = tm.truth(v)
        if band(ev.pc, bor(band(want, bnot(got)), band(got, bnot(want)))) is F:
            rep.ok('flag-passed', w, show(ev.kw[fl]))
        elif _definite(v, fl):
            rep.bad('flag-passed', w, '%s receives %s = %s' % (ev.name, fl, show(ev.kw[fl])))
        else:
            rep.unk('flag-passed', w, '%s = %s' % (fl, show(v)))


def _definite(v, fl):
    """the value is built from flags / constants only, so inequality is a real difference"""
    for t in leaves(v):
        if tm.is_const(t):
            continue
        if t[0] == 'param':
            continue
        return _no_flag(t, fl)
    for a in atoms_of(v):
        if a[0] == 'truth' and a[1][0] == 'param':
            continue
        return _no_flag(a, fl)
    return True


def _no_flag(t, fl):
    """own flag does not occur in the term at all"""
    return not _mentions_name(t, fl)


def _mentions_name(t, fl):
    if t == ('param', fl) or t == tm.const(fl):
        return True
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'attr' and isinstance(t[2], str) and t[2].strip('_') == fl:
            return True
        return any(_mentions_name(x, fl) for x in t)
    if hasattr(t, 'leaf'):
        return any(_mentions_name(x, fl) for x in leaves(t)) or any(_mentions_name(x, fl) for x in atoms_of(t))
    return False


def _config(ctx, rep, covered):
    s = ctx.run('NrwalConfig', '__init__', stop=ctx.config_stop())
    cfg = ('param', s.func.params()[1])
    n = 0
    for ev in s.events:
        if ev.kind != 'new' or ev.name not in NESTED:
            continue
        covered[id(ev.node)] = 1
        rep.count('constructions of nested objects analysed')
        n += 1
        for fl in FLAGS:
            w = '%s [%s]' % (ev.where, fl)
            if fl not in ev.kw:
                rep.bad('config-flag', w, '%s is constructed without %s' % (ev.name, fl))
                continue
            v = ev.kw[fl]
            for other in FLAGS:
                if other != fl and _mentions_name(v, other):
                    rep.bad('config-flag', w, '%s depends on %s' % (fl, other))
            isdict = bnot(tm.mk_isinst(cfg, 'str'))
            g = band(ev.pc, isdict)
            r = tm.truth(restrict(v, g))
            key = tm.const(fl)
            has = tm.mk_in(key, cfg)
            idx = tm.mk_index(cfg, key)
            want = band(has, tm.truth(idx))
            want = bor(want, band(bnot(has), tm.mk_truth(('param', fl))))
            diff = band(g, bor(band(want, bnot(r)), band(r, bnot(want))))
            if diff is F:
                rep.ok('config-flag', w, 'entry of the config if present, else the argument')
                continue
            odd = [a for a in atoms_of(r) if not (a == ('in', key, cfg) or a in (('truth', x) for x in leaves(idx))
                                                  or a == ('truth', ('param', fl)))]
            if not odd:
                rep.bad('config-flag', w, '%s reaches the library as %s' % (fl, show(restrict(v, g), 300)))
            elif not _mentions_name(restrict(v, g), fl):
                rep.bad('config-flag', w, '%s never reaches the library' % fl)
            else:
                rep.unk('config-flag', w, show(r))
    if n == 0:
        rep.unk('config-flag', where(s.func), 'library construction not found')


def _rebinding(ctx, rep):
    """flag attributes keep the constructor's value"""
    for cn in ('EquationGroup', 'EquationDirectory'):
        s = ctx.run(cn, '__init__')
        fa = {}
        for (o, a), v in s.state.fields.items():
            if o == SELF:
                fv = s.fz(v)
                for t in leaves(fv):
                    if t[0] == 'param' and t[1] in FLAGS:
                        fa.setdefault(a, set()).add(t[1])
        for a, fls in fa.items():
            if len(fls) > 1 and is_leaf(s.fz(s.state.fields[(SELF, a)])) is False:
                rep.unk('flag-kept', where(s.func), 'attribute %s mixes %s' % (a, sorted(fls)))
            for m, c, fn, n, how in attr_stores(ctx.prog, a):
                rep.count('stores to flag attributes')
                f = find_func(ctx.prog, m, c, fn)
                if f is not None and (f.name == '__init__' or any(
                        ev.kind == 'setattr' and ev.name == a and ev.node is not None and ev.func is not None and ev.func.node is fn
                        for ev in s.events)):
                    continue
                if f is None:
                    rep.bad('flag-kept', loc(m, c, fn, n), 'flag attribute %s rebound' % a)
                    continue
                s2 = ctx.run_func(f, c)
                evs = [ev for ev in s2.events if ev.kind == 'setattr' and ev.name == a]
                for ev in evs:
                    vs = leaves(ev.args[0])
                    same = all((t[0] == 'attr' and t[2] == a) for t in vs)
                    if same:
                        rep.ok('flag-kept', loc(m, c, fn, n), 'copies the same flag')
                    elif all(tm.is_const(t) or (t[0] == 'attr' and t[2] in fa) for t in vs):
                        rep.bad('flag-kept', loc(m, c, fn, n), 'flag attribute %s is set to %s' % (a, show(ev.args[0])))
                    else:
                        rep.unk('flag-kept', loc(m, c, fn, n), 'flag attribute %s is set to %s' % (a, show(ev.args[0])))


def _ast_sites(ctx, rep, covered):
    """construction sites the value-flow events did not cover"""
    for m, cls, fn, n in walk_funcs(ctx.prog):
        if not isinstance(n, ast.Call):
            continue
        d = dotted(ctx.prog, m, fn, n.func)
        if isinstance(d, Cls) and d.name in NESTED:
            rep.count('construction sites in the source')
            if id(n) in covered or fn is None:
                continue
            rep.unk('site', loc(m, cls, fn, n), 'construction of %s not covered by the value-flow analysis' % d.name)
