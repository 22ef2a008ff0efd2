"""C15: variables files apply to exactly the objects below them."""
from .common import *
from .layers import *
from .c05 import STOPS
from .c16 import World
from ..spec import Spec

RULES = ['one level (the induction step over the tree): for an arbitrary name the value stored in the directory and the value handed to every kind of '
         'child is a decision diagram over "is the name in the variables file / in the values from above / already set"; without a forced update the '
         'variables file must win over the values from above, with one the values from above must win, and a nested directory must then receive '
         'nothing but the values from above',
         'every child directory, equation group and equation is reached, whatever its name; a nested directory receives the same force flag; a group '
         'hands its values to every child',
         'no dictionary received from above (shared with the directories beside) and no variables file is written to or kept without copying',
         'the constructor, specialised on a listing with a variables file, applies that file (not forced) after the entries are loaded']
ASSUMPTIONS = ['the variables entry of a directory is a variable group (asserted by the code)', 'the call structure is a tree: a directory reaches its '
               'children through the public set_default_variables only']
SET = 'set_default_variables'


def check(ctx, rep):
    rep.part('level', _level, ctx, rep)
    rep.part('group', _group, ctx, rep)
    rep.part('constructor', _constructor, ctx, rep)


class Level:
    def __init__(self, ctx):
        self.ctx = ctx
        st = tuple(q for q in STOPS)
        self.s = ctx.run('EquationDirectory', SET, stop=tuple(PREDICATES) + st)
        ps = [p for p in self.s.func.params() if p != 'self']
        self.group = ('param', ps[0])
        self.force = ('param', ps[1] if len(ps) > 1 else 'force_update')
        self.store = ('attr', SELF, ctx.store_attr('EquationDirectory'))
        self.defs = ('attr', SELF, ctx.def_attr('EquationDirectory'))
        self.vkey = tm.const('variables')
        self.vent = ('index', self.store, self.vkey)

    def is_file(self, t):
        while t[0] in ('dcopy', 'scopy'):
            t = t[1]
        return t[0] in ('attr', 'mcall') and t != self.defs and tm.tmentions(t, self.vent) and t[2] != self.defs[2] or t == self.vent

    def is_group(self, t):
        while t[0] in ('dcopy', 'scopy'):
            t = t[1]
        return t == self.group

    def is_defs(self, t):
        while t[0] in ('dcopy', 'scopy'):
            t = t[1]
        return t == self.defs

    def fix(self, force, more=None):
        """the situations: a variables file exists and loads, values from above are given or not"""
        def f(a):
            if more is not None:
                r = more(a)
                if r is not None:
                    return r
            if a[0] == 'isinst' and a[1] == self.vent:
                return a[2] == 'VariableGroup'
            if a[0] == 'isnone' and tm.tmentions(a[1], self.vent):
                return False
            if a[0] == 'raises':
                return False
            if a == ('in', self.vkey, self.store):
                return True
            if a == ('truth', self.force) or a == ('eq', self.force, tm.const(True)):
                return force
            if a[0] == 'truth' and (self.is_group(a[1]) or self.is_file(a[1]) or a[1] in (self.store, self.vent)):
                return True
            if a == ('isnone', self.group):
                return False
            if a[0] == 'isinst' and a[1] == self.group:
                return a[2] == 'dict'
            return None
        return f


CHILDREN = ('EquationDirectory', 'EquationGroup', 'Equation')


def child_term(lv, t):
    """the key term of the child, None if the term is not a child of the directory"""
    if t[0] == 'index' and t[1] == lv.store:
        return t[2]
    if t[0] == 'elem' and t[1][0] == 'view' and t[1][1] == 'values' and t[1][2] == lv.store:
        return t
    return None


def type_fix(lv, kind, ctx):
    c = ctx.prog.cls(kind)
    names = {k.name for k in c.mro}

    def f(a):
        if a[0] == 'isinst' and child_term(lv, a[1]) is not None and a[1] != lv.vent:
            return a[2] in names
        if a[0] == 'call' and a[1] == 'hasattr':
            return True
        if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == 'hasattr':
            return True
        if a[0] == 'isnone' and child_term(lv, a[1]) is not None:
            return False
        if a[0] == 'eq' and lv.vkey in a[1:]:
            return False        # the child is not the variables file itself
        return None
    return f


def _level(ctx, rep):
    lv = Level(ctx)
    s = lv.s
    w = where(s.func)
    v = value_of(s.fz(s.state.fields.get((SELF, lv.defs[2]), leaf(lv.defs))))
    file_, above, prev = ('variables file', lv.is_file), ('values from above', lv.is_group), ('values set before', lv.is_defs)
    for force in (False, True):
        order = [above, prev] if force else [file_, above, prev]
        nm = 'forced update' if force else 'ordinary update'
        check_layers(rep, 'own values (%s)' % nm, w, restrict(v, assume_atoms(v, lv.fix(force))), s.pc, order, extra=lv.fix(force))
    # without values from above
    def alone(a):
        if a == ('isnone', lv.group):
            return True
        if a == ('truth', lv.group):
            return False
        if a[0] == 'in' and a[1] == K and lv.is_group(a[2]):
            return False
        return None
    r = restrict(v, assume_atoms(v, lv.fix(False, alone)))
    check_layers(rep, 'own values (nothing from above)', w, r, s.pc, [file_, prev], extra=lv.fix(False, alone))
    _leaks(lv, rep)
    # children
    evs = [e for e in s.events if e.kind in ('mcall', 'call', 'inline') and str(e.name).split('.')[-1] == SET and e.recv is not None]
    calls = []
    for e in evs:
        for g, t in cases(e.recv):
            if child_term(lv, t) is not None:
                calls.append((e, band(e.pc, g), t))
            elif t != SELF:
                rep.unk('children', e.where, 'receiver %s' % show(t, 120))
    if not calls:
        rep.bad('children', w, 'no child receives the values', key='children@none')
        return
    for kind in CHILDREN:
        tf = type_fix(lv, kind, ctx)
        for force in (False, True):
            fx = lv.fix(force, tf)
            nm = '%s (%s)' % (kind, 'forced update' if force else 'ordinary update')
            cov, und = F, None
            hit = []
            for e, pc, t in calls:
                g = restrict(pc, assume_atoms(pc, fx))
                g = restrict(g, assume_atoms(g, fx))
                if g is F:
                    continue
                hit.append((e, g, t))
                cov = bor(cov, g)
            if not hit:
                rep.bad('children', w, 'a child %s does not receive the values' % nm, key='children@%s-none' % kind)
                continue
            if cov is not T:
                left = bnot(cov)
                ok, c = implied(T, cov)
                k = [t for _, _, t in hit]
                if ok is False:
                    rep.bad('children', w, 'a child %s does not receive the values if %s' % (nm, show(c, 200)), key='children@%s-some' % kind)
                elif ok is None:
                    rep.unk('children', w, '%s is only reached if %s' % (nm, show(cov, 200)))
            else:
                rep.ok('children', w, 'every child %s is reached' % nm)
            for e, g, t in hit:
                _handed(lv, rep, e, g, kind, force, fx, nm)


def _arg(e, name, i):
    if name in e.kw:
        return e.kw[name]
    if len(e.args) > i:
        return e.args[i]
    return None


def _handed(lv, rep, e, g, kind, force, fx, nm):
    f = lv.ctx.prog.func(kind, SET)
    ps = [p for p in f.params() if p != 'self']
    a = _arg(e, ps[0], 0)
    w = e.where
    if a is None:
        rep.bad('handed on', w, 'a child %s receives no values' % nm, key='handed@%s-nothing' % kind)
        return
    v = value_of(lv.s.fz(a))
    v = restrict(v, assume_atoms(v, fx))
    above, file_ = ('values from above', lv.is_group), ('variables file', lv.is_file)
    check_layers(rep, 'handed to %s' % nm, w, v, g, [above] if force else [file_, above], extra=fx)
    if force and kind == 'EquationDirectory':
        # anything but the values from above would override the variables files further down
        gg = T
        for x in atoms_of(v):
            if x[0] == 'in' and x[1] == K and lv.is_group(x[2]):
                gg = band(gg, bnot(atom(x)))
        r = restrict(v, gg)
        for c, t in cases(r):
            src, _ = origin(t)
            if src in (MISSING, ('absent',)):
                continue
            if src[0] == 'index' and src[2] == K and (lv.is_file(src[1]) or lv.is_defs(src[1])):
                rep.bad('handed on', w, 'a forced update hands values of this directory (%s) to nested directories and so overrides their variables files'
                        % show(src, 100), key='handed@forced-local')
            else:
                rep.unk('handed on', w, 'a forced update hands on %s' % show(t, 120))
    if kind != 'EquationDirectory':
        return
    fl = _arg(e, ps[1] if len(ps) > 1 else 'force_update', 1)
    fl = tm.cnode(False) if fl is None else lv.s.fz(fl)
    fl = restrict(fl, assume_atoms(fl, fx))
    tr = bind(fl, tm.mk_truth) if not (fl is T or fl is F) else fl
    tr = restrict(tr, assume_atoms(tr, fx))
    if tr is (T if force else F):
        rep.ok('force flag', w, 'nested directories receive the same flag (%s)' % ('forced' if force else 'not forced'))
    elif tr is (F if force else T):
        rep.bad('force flag', w, 'nested directories receive force_update=%s in %s update' % (not force, 'a forced' if force else 'an ordinary'),
                key='force@%s' % force)
    else:
        ok, c = (implied(T, tr) if force else implied(tr, F))
        if ok is False:
            rep.bad('force flag', w, 'nested directories do not receive the same flag if %s' % show(c, 150), key='force@%s-some' % force)
        else:
            rep.unk('force flag', w, 'flag of nested directories: %s' % show(tr, 150))


def _leaks(lv, rep):
    s = lv.s
    shared = 0
    for e in s.events:
        if e.kind != 'mut':
            continue
        rep.count('writes examined')
        for g, t in cases(e.recv):
            if t == lv.group or t[0] == 'index' and t[1] == lv.group:
                shared += 1
                rep.bad('shared', e.where, 'the values from above are written to: they would reach the directories beside', key='shared@above')
            elif lv.is_file(t) and t[0] not in ('dcopy', 'scopy') and t != lv.vent:
                shared += 1
                rep.bad('shared', e.where, 'the variables file itself is written to', key='shared@file')
    v = s.state.fields.get((SELF, lv.defs[2]), leaf(lv.defs))
    for t in leaves(v):
        if t == lv.group or lv.is_file(t) and t[0] not in ('dcopy', 'scopy'):
            shared += 1
            rep.bad('shared', where(s.func), 'the directory keeps %s without copying it' % show(t, 80), key='shared@kept')
    if not shared:
        rep.ok('shared', where(s.func), 'nothing received from above is written to or kept uncopied')


def _group(ctx, rep):
    for cn in ('EquationGroup', 'VariableGroup'):
        s = ctx.run(cn, SET, stop=tuple(PREDICATES) + STOPS)
        st = ('attr', SELF, ctx.store_attr(cn))
        p = ('param', [x for x in s.func.params() if x != 'self'][0])
        if cn == 'VariableGroup':
            continue
        w = where(s.func)

        def fx(a):
            if a == ('isnone', p):
                return False
            if a == ('truth', p) or a == ('truth', st):
                return True
            if a[0] == 'isinst' and a[1] == p:
                return a[2] == 'dict'
            return None
        evs = [e for e in s.events if e.kind in ('mcall', 'call') and str(e.name).split('.')[-1] == SET and e.recv is not None]
        for kind in ('EquationGroup', 'Equation'):
            names = {k.name for k in ctx.prog.cls(kind).mro}
            cov = F
            odd = False
            for e in evs:
                for g, t in cases(e.recv):
                    child = t[0] == 'index' and t[1] == st or t[0] == 'elem' and t[1][0] == 'view' and t[1][1] == 'values' and t[1][2] == st
                    if not child:
                        odd = True
                        rep.unk('group', e.where, 'receiver %s' % show(t, 100))
                        continue

                    def f2(a, t=t):
                        if a[0] == 'isinst' and a[1] == t:
                            return a[2] in names
                        if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == 'hasattr':
                            return True
                        return fx(a)
                    pc = band(e.pc, g)
                    pc = restrict(pc, assume_atoms(pc, f2))
                    if pc is F:
                        continue
                    cov = bor(cov, pc)
                    a = _arg(e, [x for x in ctx.prog.func(kind, SET).params() if x != 'self'][0], 0)
                    if a is None:
                        rep.bad('group', e.where, 'a child %s receives no values' % kind, key='group@nothing')
                        continue
                    v = value_of(s.fz(a))
                    check_layers(rep, 'handed to %s of a group' % kind, e.where, v, pc, [('values given to the group',
                                 lambda t: t == p or t[0] in ('dcopy', 'scopy') and t[1] == p)], extra=f2)
            if cov is T:
                rep.ok('group', w, 'every %s of a group is reached' % kind)
            else:
                ok, c = implied(T, cov)
                if ok is False and not odd:
                    rep.bad('group', w, 'a child %s of a group is not reached%s' % (kind, '' if cov is F else ' if ' + show(c, 150)), key='group@%s' % kind)
                else:
                    rep.unk('group', w, 'children %s reached if %s' % (kind, show(cov, 150)))
    _group_members(ctx, rep)
    for cn in ('Equation', 'EquationGroup', 'VariableGroup'):
        try:
            s = ctx.run(cn, SET, stop=tuple(PREDICATES) + STOPS)
        except Exception:
            continue
        d = '_default_variables' if cn == 'VariableGroup' else ctx.def_attr(cn)
        if d is None or cn == 'VariableGroup':
            continue
        loc_ = ('attr', SELF, d)
        p = ('param', [x for x in s.func.params() if x != 'self'][0])
        raw = s.state.fields.get((SELF, d), leaf(loc_))
        if p in leaves(raw):
            rep.bad('shared', where(s.func), '%s keeps the dictionary it is given without copying it: later updates would reach the objects beside' % cn,
                    key='shared@%s-kept' % cn)
        v = value_of(s.fz(raw))
        check_layers(rep, 'values kept', '%s [%s]' % (where(s.func), cn), v, s.pc,
                     [('new values', lambda t: t == p), ('previous values', lambda t: t == loc_)],
                     extra=lambda a: True if a == ('truth', p) else None)


def _group_members(ctx, rep):
    """a group with one equation and one nested group: both are reached"""
    sp = Spec(ctx)
    e, g = ('param', '?equation'), ('param', '?subgroup')
    st = ctx.store_attr('EquationGroup')
    s = sp.run('EquationGroup', SET, {'self.' + st: {'e': leaf(e), 'g': leaf(g)}}, stop=tuple(PREDICATES) + STOPS,
               hint=lambda t: {e: 'Equation', g: 'EquationGroup'}.get(t))
    p = ('param', [x for x in s.func.params() if x != 'self'][0])
    for kind, m in (('Equation', e), ('EquationGroup', g)):
        cov = F
        for ev in s.events:
            if ev.kind in ('mcall', 'call', 'inline') and str(ev.name).split('.')[-1] == SET and ev.recv is not None:
                for c, t in cases(ev.recv):
                    if t == m:
                        cov = bor(cov, band(ev.pc, c))
        cov = restrict(cov, assume_atoms(cov, lambda a: True if a == ('truth', p) else False if a == ('isnone', p) else None))
        if cov is T:
            rep.ok('group', where(s.func), 'the %s of a group is reached' % kind)
        elif cov is F:
            rep.bad('group', where(s.func), 'a child %s of a group does not receive the values' % kind, key='group@%s-member' % kind)
        else:
            rep.unk('group', where(s.func), 'the %s of a group is reached if %s' % (kind, show(cov, 150)))


def _constructor(ctx, rep):
    sp = Spec(ctx)
    W = World(ctx, {'a.yaml': 'file', 'variables.yaml': 'file', 'z.yaml': 'file'})
    st = tuple(x for x in STOPS if 'Directory' not in x)
    s = sp.run('EquationDirectory', '__init__', {}, raise_hint=W.raise_hint, ext=W.stubs(), stop=tuple(PREDICATES) + st)
    w = where(W.f)
    d = ctx.def_attr('EquationDirectory')
    rep.count('constructor specialisations')

    def is_file(t):
        while t[0] in ('dcopy', 'scopy'):
            t = t[1]
        if t[0] in ('attr', 'mcall'):
            t = t[1]
        return t[0] == 'new' and W.arg(t) == 'variables.yaml'
    v = value_of(s.fz(s.state.fields.get((SELF, d), leaf(('undef',)))))
    check_layers(rep, 'constructor', w, v, s.pc, [('variables file', is_file)])
    got = set()
    for e in s.events:
        if e.kind not in ('mcall', 'call', 'inline') or str(e.name).split('.')[-1] != SET or e.recv is None:
            continue
        for g, t in cases(e.recv):
            if t[0] != 'new' or band(e.pc, g) is not T:
                continue
            a = _arg(e, 'var_dict', 0)
            if a is not None and check_layers(rep, 'constructor', e.where, value_of(s.fz(a)), e.pc, [('variables file', is_file)]):
                got.add(W.arg(t))
    for n in ('a.yaml', 'z.yaml'):
        if n in got:
            rep.ok('constructor', w, 'the equations of %s receive the variables file beside it' % n)
        elif any(e.recv is not None and str(e.name).split('.')[-1] == SET for e in s.events):
            rep.unk('constructor', w, 'values received by %s' % n)
        else:
            rep.bad('constructor', w, 'loading a directory does not apply its variables file', key='constructor@none')
