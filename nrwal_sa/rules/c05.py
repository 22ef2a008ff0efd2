"""C05: value precedence."""
from .common import *
from .layers import *
from . import worlds
from ..spec import Spec

RULES = ['for an arbitrary name the value that reaches the evaluator is computed as a decision diagram over "is the name in ..."; in every case '
         'in which the name is in a layer and in no higher one the value must originate from that layer, unchanged except for integer to float '
         'conversions (layers of an equation: call arguments > defaults; of a config: outputs > inputs > constants)',
         'the inputs property stores every given value; updating default variables lets the new values win',
         'every library object a config refers to receives the constants of the config as defaults (forced for directories)',
         'configs of a known content in which a name is in several layers: each equation must be calculated with the value of the highest layer']
ASSUMPTIONS = ['type tests on one value are consistent (an array is not an int)']


def check(ctx, rep):
    rep.part('equation', _equation, ctx, rep)
    rep.part('config', _config, ctx, rep)
    rep.part('inputs', _inputs, ctx, rep)
    rep.part('defaults', _defaults, ctx, rep)
    rep.part('constants', _constants, ctx, rep)
    rep.part('known configs', worlds.evaluations, ctx, rep, 'known-configs', ('evaluate', 'eval'), ('constant', 'named like', 'by name', 'zero', 'more inputs'), limit=150)


def is_self_attr(a):
    def p(t):
        while t[0] in ('dcopy', 'scopy'):
            t = t[1]
        return t == ('attr', SELF, a)
    return p


def eval_events(ctx, rep):
    s = ctx.run('Equation', 'evaluate')
    evs = [ev for ev in s.events if ev.kind == 'call' and ev.name in ('eval', 'builtins.eval')]
    return s, evs


def _equation(ctx, rep):
    s, evs = eval_events(ctx, rep)
    if not evs:
        rep.unk('equation', where(s.func), 'evaluator call not found')
    kwname = s.func.node.args.kwarg.arg if s.func.node.args.kwarg else None
    kw = ('param', '**' + kwname) if kwname else None
    d = ctx.def_attr('Equation')
    for ev in evs:
        rep.count('evaluator calls')
        args = list(ev.args) + [ev.kw[k] for k in ('globals', 'locals') if k in ev.kw]
        if len(args) < 2:
            rep.unk('equation', ev.where, 'namespace of the evaluator not found')
            continue
        v = value_of(args[-1])
        if len(args) == 3:
            # names of the explicit globals are only a fallback
            pass
        layers = [('call arguments', lambda t: t == kw), ('default variables', is_self_attr(d))]
        check_layers(rep, 'equation', ev.where, v, ev.pc, layers)


def _config(ctx, rep):
    s = ctx.run('NrwalConfig', 'evaluate')
    out, inp, gv = (ctx.returned_attr('NrwalConfig', n) for n in ('outputs', 'inputs', 'global_variables'))
    evs = [ev for ev in s.events if ev.kind in ('mcall', 'call') and (ev.name in ('evaluate', 'eval') or ev.name in ('Equation.evaluate', 'Equation.eval'))
           and (ev.kw or ev.args)]
    if not evs:
        rep.unk('config', where(s.func), 'evaluation of an entry not found')
    refs = set()
    for t in leaves(s.state.fields.get((SELF, out), leaf(('attr', SELF, out)))):
        refs.add(t)

    def is_out(t):
        while t[0] in ('dcopy', 'scopy'):
            t = t[1]
        return t == ('attr', SELF, out) or t[0] == 'mu' and (t[2] in refs or t[2] == (SELF, out) or t[2] == ('attr', SELF, out))
    for ev in evs:
        rep.count('entry evaluations')
        if '**' not in ev.kw:
            rep.unk('config', ev.where, 'arguments of the evaluation not found')
            continue
        v = value_of(ev.kw['**'])
        ip = [x for x in s.func.params() if x != 'self']
        pre = given(*[(('isnone', ('param', p)), True) for p in ip])
        v = restrict(v, pre)
        check_layers(rep, 'config', ev.where, v, ev.pc, [('outputs', is_out), ('inputs', is_self_attr(inp)), ('constants', is_self_attr(gv))])


def _inputs(ctx, rep):
    s = ctx.run('NrwalConfig', 'inputs', setter=True)
    inp = ctx.returned_attr('NrwalConfig', 'inputs')
    p = ('param', s.func.params()[1])
    v = s.state.fields.get((SELF, inp), leaf(('attr', SELF, inp)))
    v = value_of(s.fz(v))
    isd = ('isinst', p, 'dict')
    w = where(s.func)
    for nm, lit in (('dictionary', True), ('data frame', False)):
        def extra(a, lit=lit):
            if a == isd:
                return lit
            if a == ('isinst', p, 'pandas.DataFrame'):
                return not lit
            if a == ('isnone', p):
                return False
            return None
        r = restrict(v, assume_atoms(v, extra))

        def src(t, lit=lit):
            while t[0] in ('dcopy', 'scopy') or t[0] == 'attr' and t[2] in ('columns', 'values') or t[0] == 'mcall' and t[2] in ('keys', 'tolist', 'to_dict', 'copy'):
                t = t[1]
            return t == p
        check_layers(rep, 'inputs', w, r, s.pc, [('inputs given as a ' + nm, src), ('inputs set before', is_self_attr(inp))], extra=extra)


def _defaults(ctx, rep):
    for cn in ('Equation', 'EquationGroup'):
        s = ctx.run(cn, 'set_default_variables')
        d = ctx.def_attr(cn)
        loc_ = ('attr', SELF, d)
        v = s.state.fields.get((SELF, d), leaf(loc_))
        v = value_of(s.fz(v))
        p = ('param', s.func.params()[1])
        check_layers(rep, 'defaults', '%s [%s]' % (where(s.func), cn), v, s.pc,
                     [('new values', lambda t: t == p), ('previous defaults', lambda t: t == loc_)])


STOPS = ('Equation.set_default_variables', 'AbstractGroup.set_default_variables', 'EquationGroup.set_default_variables',
         'EquationDirectory.set_default_variables')


CONSTS = {'k': 5, 'r': 0.12345678912345, 't': '2.75', 'z': 0, 'n': -31415926.5, 'e': '1e-07'}
ALTER = {'round', 'float32', 'float16', 'int', 'abs', 'int32', 'int64', 'floor', 'ceil', 'around', 'nan_to_num'}


def _constants(ctx, rep):
    sp = Spec(ctx)
    f = ctx.prog.func('NrwalConfig', '__init__')
    w = where(f)
    for kind in ('Equation', 'EquationGroup', 'EquationDirectory'):
        def hint(t, kind=kind):
            r = Spec.equation_hint(t)
            if r and t[0] == 'index':
                return kind
            return r
        for text in ['lib::entry'] + (['lib::entry * a', 'a - lib::entry'] if kind == 'Equation' else []):
            cfg = dict(CONSTS, x=text)
            names = {'lib', 'lib::entry', 'entry'}
            s = sp.run('NrwalConfig', '__init__', {f.params()[1]: cfg, 'inputs': tm.cnode(None)},
                       stop=tuple(PREDICATES) + ('EquationDirectory.__init__',) + STOPS, hint=hint, raise_hint=sp.library(names))
            rep.count('configs with constants')
            hit, forced, seen, bad = None, True, 0, []
            for ev in s.events:
                nm = str(ev.name).split('.')[-1]
                if nm != 'set_default_variables':
                    continue
                rec = ev.recv
                if rec is None or not any(_lib(t) for t in leaves(rec)):
                    continue
                seen += 1
                args = list(ev.args) + list(ev.kw.values())
                d = [a for a in args if any(x[0] in ('dict', 'upd', 'dcopy') for x in leaves(a))]
                if not d:
                    continue
                vals, wrong, open_ = [], [], []
                for k, want in CONSTS.items():
                    got = bind(d[0], lambda t: tm.lookup(t, tm.const(k), leaf(MISSING)))
                    got = restrict(got, ev.pc)
                    for t in leaves(got):
                        o, conv = origin(t)
                        if any(c.startswith('!') or c.split('.')[-1] in ALTER for c in conv):
                            wrong.append((k, t))
                        elif tm.is_num_const(o):
                            (vals if float(o[2]) == float(want) else wrong).append((k, o))
                        elif o == MISSING:
                            wrong.append((k, o))
                        else:
                            open_.append((k, o))
                if wrong:
                    bad.append(wrong[0])
                    continue
                if open_ and vals:
                    rep.unk('constants', w, 'value of the constant %s: %s' % (open_[0][0], show(open_[0][1])))
                    hit = None
                    continue
                cert = restrict(ev.pc, s.pc) is T or band(s.pc, bnot(ev.pc)) is F or not _unconditional_raises(ev.pc)
                if vals and not open_:
                    hit = True if cert or hit else None
                    fu = ev.kw.get('force_update', None)
                    if fu is None and len(ev.args) > 1:
                        fu = ev.args[1]
                    if kind == 'EquationDirectory':
                        forced = fu is not None and all(t == tm.const(True) for t in leaves(tm.val(fu)))
                elif hit is None:
                    hit = False
            what = '%s of kind %s' % (text, kind)
            if s.pc is F:
                rep.unk('constants', w, '%s: refused' % what)
            elif bad and bad[0][1] != MISSING:
                rep.bad('constants', w, 'the constant %s = %r reaches %s as %s' % (bad[0][0], CONSTS[bad[0][0]], what, show(bad[0][1])), key='constants@value')
            elif bad:
                rep.bad('constants', w, '%s does not receive the constant %s of the config' % (what, bad[0][0]), key='constants@lost')
            elif hit is True and forced:
                rep.ok('constants', w, '%s receives the constants of the config' % what)
            elif hit is True:
                rep.bad('constants', w, 'the constants of the config are not forced onto %s' % what, key='constants@forced')
            elif hit is False:
                rep.bad('constants', w, '%s does not receive the constants of the config' % what, key='constants@lost')
            elif not seen and _reached(ctx, s):
                rep.bad('constants', w, 'no default variables are set for %s' % what, key='constants@never')
            else:
                rep.unk('constants', w, what)


def _reached(ctx, s):
    """the entry of the config is the library object"""
    d = s.fz(s.state.fields.get((SELF, ctx.store_attr('NrwalConfig')), leaf(('undef',))))
    v = bind(d, lambda t: tm.lookup(t, tm.const('x'), leaf(MISSING)))
    return all(_lib(t) for t in leaves(v))


def _unconditional_raises(pc):
    return bool(atoms_of(pc))


def _lib(t):
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    if t[0] == 'bin':
        return _lib(t[2]) or _lib(t[3])
    return t[0] == 'index' and tm.is_str_const(t[2])
