"""C13: evaluating a config computes every equation from the current inputs."""
from .common import *
from . import worlds
from .layers import *
from ..mtbdd import atom

RULES = ['the mapping returned (and left in the outputs property) is a fresh dictionary filled during the call: every store is keyed by an entry name and '
         'holds the result of evaluating that entry',
         'the guard of that store, as a boolean function with the loop condition instantiated at the entry itself, must be true for every equation '
         'entry that is not a constant and has no output yet',
         'inputs given to the call reach the evaluation of the entries',
         'evaluate / eval specialised on configs of a known content (old outputs, constants, inputs named like entries): the outputs must be the values of the formulas']
ASSUMPTIONS = ['an entry that prints as a number is a constant of the config']


def check(ctx, rep):
    for m in ('evaluate', 'eval'):
        rep.part('outputs of ' + m, _outputs, ctx, rep, m)
    rep.part('current inputs', _inputs, ctx, rep)
    rep.part('open entries', _open, ctx, rep)
    rep.part('known configs', worlds.evaluations, ctx, rep, 'known-configs', limit=200)


def _strip(t):
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    return t


def roles(ctx):
    cfg = ('attr', SELF, ctx.store_attr('NrwalConfig'))
    out, inp, gv = (('attr', SELF, ctx.returned_attr('NrwalConfig', n)) for n in ('outputs', 'inputs', 'global_variables'))
    return cfg, out, inp, gv


def _outputs(ctx, rep, meth):
    s = ctx.run('NrwalConfig', meth)
    cfg, out, inp, gv = roles(ctx)
    w = where(s.func)
    pre = given(*[(('isnone', ('param', p)), True) for p in s.func.params() if p != 'self'])
    r = restrict(s.fz(s.ret), band(pre, s.pc))
    fld = s.state.fields.get((SELF, out[2]), leaf(out))
    dels = [ev for ev in s.events if ev.kind == 'mut' and ev.name in ('del', 'pop', 'popitem', 'clear') and ev.recv is not None
            and restrict(ev.pc, pre) is not F and any(_is_out(t, out) for t in leaves(tm.val(ev.recv)))]
    if dels:
        rep.unk('fresh', dels[0].where, 'outputs are removed one by one')
        return
    f = restrict(s.fz(fld), band(pre, s.pc))
    a, b = (restrict(skolem(bind(tm.val(v), lambda t: tm.mk_in(K, _strip(t)))), pre) for v in (r, f))
    fx = fixer(K, ('index', cfg, K), cfg, out, gv)
    v, d = equivalent(a, b, band(assume_atoms(a, fx), assume_atoms(b, fx)))
    if v is False:
        rep.bad('returned', w, 'the mapping returned is not the outputs of the config (case: %s)' % show(d, 250), key='returned@differs')
    elif v is True:
        rep.ok('returned', w, 'the names returned are the names of the outputs')
    for nm, v in (('returned', r), ('kept as outputs', f)):
        v = tm.val(v)
        for g, t in cases(v):
            _mapping(ctx, rep, w, nm, t, g, s, cfg, out, gv)


def _is_out(t, out):
    t = _strip(t)
    return t == out or t[0] == 'mu' and t[2] in (out, (SELF, out[2]))


def _mapping(ctx, rep, w, nm, t, g, s, cfg, out, gv):
    cond = '' if g is T else ' if ' + show(g, 120)
    t = _strip(t)
    if t == out or t[0] == 'upd' and _strip(t[1]) == out:
        if t[0] == 'upd' and any(op[0] not in ('set', 'upd') for op in tm.dict_ops(t)):
            rep.unk('fresh', w, 'outputs %s: cleared in an unknown way' % nm)
            return
        rep.bad('fresh', w, 'the mapping %s contains outputs of earlier evaluations%s' % (nm, cond), key='fresh@stale')
        return
    if t == tm.const(None):
        rep.bad('fresh', w, 'nothing is %s%s' % (nm, cond), key='fresh@none')
        return
    if t[0] != 'dict':
        rep.unk('fresh', w, 'mapping %s: %s%s' % (nm, show(t), cond))
        return
    rep.ok('fresh', w, 'the mapping %s is built during the call' % nm)
    ops = tm.dict_ops(t)
    sets = []
    for op in ops:
        if op[0] != 'set':
            if op[0] == 'upd' and is_leaf(op[3]) and _strip(op[3].leaf) == out:
                rep.bad('fresh', w, 'outputs of an earlier evaluation are put into the mapping %s' % nm, key='fresh@stale')
                return
            rep.unk('stores', w, 'operation %s on the mapping %s' % (op[0], nm))
            return
        sets.append(op)
    if not sets:
        rep.bad('stores', w, 'no output is stored in the mapping %s' % nm, key='stores@none')
        return
    tot = F
    for op in sets:
        _, chain, guard, key, val = op
        e = _entry(key, cfg)
        if e is None:
            rep.unk('stores', w, 'output stored under %s' % show(key))
            return
        for gg, v in cases(restrict(val, guard)):
            if _is_eval(v, e, cfg):
                rep.ok('stores', w, 'an output is the result of evaluating its entry')
                tot = bor(tot, band(guard, gg) if gg is not T else guard)
            elif _stale(v, out):
                rep.bad('stores', w, 'an output of an earlier evaluation is stored%s' % ('' if gg is T else ' if ' + show(gg, 120)), key='stores@stale')
                return
            elif tm.is_const(v) or v[0] == 'index' and _strip(v[1])[0] in ('attr', 'param'):
                rep.bad('stores', w, 'an output is %s instead of the value of its entry' % show(v), key='stores@other')
                return
            else:
                rep.unk('stores', w, 'output stored: %s' % show(v))
                return
    _complete(rep, w, nm, tot, e, cfg, out, gv)


def _entry(key, cfg):
    if not is_leaf(key):
        return None
    k = key.leaf
    if k[0] == 'elem':
        c = k[1]
        while c[0] in ('view', 'dcopy', 'scopy', 'sorted', 'coll'):
            if c[0] == 'coll':
                x = tm.COLL[c]
                if not is_leaf(x):
                    return None
                c = x.leaf
            else:
                c = c[2] if c[0] == 'view' else c[1]
        if c == cfg:
            return k
    return None


def _is_eval(v, e, cfg):
    v = _strip(v)
    if v[0] == 'mcall' and v[2] in ('evaluate', 'eval'):
        r = _strip(v[1])
        return r[0] == 'index' and r[1] == cfg and r[2] == e
    return False


def _stale(v, out):
    v = _strip(v)
    if v[0] == 'index' and _strip(v[1]) == out:
        return True
    return v[0] == 'mcall' and v[2] == 'get' and _strip(v[1]) == out


def fixer(e, ent, cfg, out, gv, depth=0):
    def fix(a):
        if a[0] == 'isinst' and a[1] == ent:
            return a[2] == 'Equation'
        if a[0] == 'in' and a[1] == e:
            if a[2] == gv or _strip(a[2])[0] == 'mu' or a[2] == out:
                return False
            if a[2] == cfg:
                return True
        if a[0] == 'truth' and a[1][0] == 'call' and a[1][1].endswith('.is_num') and a[1][2] == (ent,):
            return False
        if a[0] == 'truth' and a[1] in (e, cfg):
            return True
        if a[0] == 'isnone' and (a[1][0] == 'param' or a[1] == ent):
            return a[1][0] == 'param'
        if a[0] == 'truth' and a[1][0] == 'cut' and a[1][1] in tm.CUTS and depth < 3:
            # a loop that is only left when nothing is open is not left while the entry is open
            g = skolem(tm.CUTS[a[1][1]])
            if restrict(g, assume_atoms(g, fixer(e, ent, cfg, out, gv, depth + 1))) is F:
                return False
        return None
    return fix


def _complete(rep, w, nm, guard, e, cfg, out, gv):
    ent = ('index', cfg, e)
    g = restrict(skolem(guard), T)

    fix = fixer(e, ent, cfg, out, gv)
    fx = assume_atoms(g, fix)
    rest = restrict(g, fx)
    neg = bnot(rest)
    if neg is F:
        rep.ok('every-equation', w, 'every open equation entry is evaluated and stored (%s)' % nm)
        return
    # the evaluation is refused when inputs are missing: existentials over variables
    for cube in _cubes_(neg):
        if all(free_atom(a) and not tm.tmentions(a, K) for a in cube):
            rep.bad('every-equation', w, 'an equation entry may be left without output if %s'
                    % ' and '.join(('' if p else 'not ') + show(atom(a), 150) for a, p in cube.items()), key='every-equation@skipped')
            return
    rep.unk('every-equation', w, 'guard of the store not decided: %s' % show(rest, 300))


def _cubes_(g):
    from ..mtbdd import paths
    return paths(g)


def _open(ctx, rep):
    """to_be_solved / solved"""
    cfg, out, inp, gv = roles(ctx)
    ent = ('index', cfg, K)
    want = band(atom(('in', K, cfg)), atom(('isinst', ent, 'Equation')), bnot(atom(('in', K, out))), bnot(atom(('in', K, gv))))
    for name in ('to_be_solved', 'solved'):
        s = ctx.run('NrwalConfig', name)
        r = s.fz(s.ret)
        if name == 'to_be_solved':
            m = bind(r, lambda t: tm.mk_in(K, t))
        else:
            m = bnot(tm.truth(r))
        m = skolem(m)
        m = _at_name(m, cfg)
        v, d = equivalent(m, want, assume_atoms(m, lambda a: True if a == ('truth', K) else None))
        if v is True:
            rep.ok('open', where(s.func), '%s: equation entries that are no constant and have no output' % name)
        elif v is False:
            rep.bad('open', where(s.func), '%s is not "equation entries without output" (case: %s)' % (name, show(d, 300)), key='open@' + name)
        else:
            rep.unk('open', where(s.func), '%s: %s' % (name, show(d, 200)))


def _at_name(m, cfg):
    el = ('elem', cfg, 0)
    if tm_mentions(m, el):
        return band(tm.subst(m, {el: K}), atom(('in', K, cfg)))
    return m


def tm_mentions(v, el):
    return any(tm.tmentions(a, el) for a in atoms_of(v))


def _inputs(ctx, rep):
    for meth in ('evaluate', 'eval'):
        s = ctx.run('NrwalConfig', meth)
        cfg, out, inp, gv = roles(ctx)
        ps = [p for p in s.func.params() if p != 'self']
        if not ps:
            rep.unk('inputs', where(s.func), 'no parameter')
            continue
        p = ('param', ps[0])
        refs = set(leaves(s.state.fields.get((SELF, out[2]), leaf(out))))

        def is_out(t):
            t = _strip(t)
            return t == out or t[0] == 'mu' and (t[2] in refs or t[2] == (SELF, out[2]) or t[2] == out)
        evs = [ev for ev in s.events if ev.kind in ('mcall', 'call') and str(ev.name).split('.')[-1] in ('evaluate', 'eval') and '**' in ev.kw]
        if not evs:
            rep.unk('inputs', where(s.func), 'evaluation of an entry not found')
        for ev in evs:
            for nm, lit in (('dictionary', True), ('data frame', False)):
                def extra(a, lit=lit):
                    if a == ('isinst', p, 'dict'):
                        return lit
                    if a == ('isinst', p, 'pandas.DataFrame'):
                        return not lit
                    if a == ('isnone', p):
                        return False
                    if a == ('truth', p):
                        return True
                    if a[0] == 'in' and a[1] == K and is_out(a[2]):
                        return False
                    return None

                def src(t):
                    while t[0] in ('dcopy', 'scopy') or t[0] == 'attr' and t[2] in ('columns', 'values') or \
                            t[0] == 'mcall' and t[2] in ('keys', 'tolist', 'to_dict', 'copy'):
                        t = t[1]
                    return t == p
                v = value_of(ev.kw['**'])
                v = restrict(v, assume_atoms(v, extra))
                check_layers(rep, 'inputs', ev.where, v, ev.pc, [('inputs given to the call as a ' + nm, src)], extra=extra)
