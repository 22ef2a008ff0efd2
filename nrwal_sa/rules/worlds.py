"""Configs of a known content: the methods of NrwalConfig specialised on them, outputs read as values."""
from fractions import Fraction

from .common import *
from .layers import assume_atoms
from .c07 import tree_value, Unres, Wrong
from ..spec import Spec


def equation(text, **defaults):
    a = [('eqn', tm.const(text)), ('name', tm.NONE)]
    return ('new', 'Equation', tuple(a))


def args_of(ctx, entries, consts=(), inputs=(), outputs=None):
    a = {'self.' + ctx.store_attr('NrwalConfig'): {k: v if not isinstance(v, str) else leaf(equation(v)) for k, v in entries.items()},
         'self.' + ctx.returned_attr('NrwalConfig', 'global_variables'): dict(consts),
         'self.' + ctx.returned_attr('NrwalConfig', 'inputs'): dict(inputs)}
    if outputs is not None:
        a['self.' + ctx.returned_attr('NrwalConfig', 'outputs')] = dict(outputs)
    return a


def run(ctx, sp, meth, a, **kw):
    if 'number' not in sp.__dict__:
        sp.number = sp.preds['Equation.is_num']
        sp.preds['Equation.is_num'] = lambda t: sp.number(t) if t[0] != 'new' else _num(sp, t)
    s = sp.run('NrwalConfig', meth, a, raise_hint=lambda types, sig: F, hint=sp.equation_hint, objects=('Equation',), stop=tuple(PREDICATES) + ('Equation.evaluate', 'Equation.eval'), **kw)
    return s


def _num(sp, t):
    e = dict(t[2]).get('eqn') if t[1] == 'Equation' else None
    return sp.number(e) if e is not None else None


def _facts(a):
    """assumption: nothing fails while the equations are calculated"""
    if a[0] == 'raises':
        return False
    return None


def settle(v):
    return restrict(v, assume_atoms(v, _facts))


def names_of(v):
    """the names in a collection of constant texts, or None"""
    v = settle(v)
    if not is_leaf(v):
        return None
    t = v.leaf
    while t[0] in ('sorted', 'dcopy', 'scopy', 'setof'):
        t = t[1]
    try:
        p = tm.pyval(t)
        if p is not None and not isinstance(p, str):
            return sorted(p)
    except Exception:
        pass
    if t[0] not in ('list', 'set', 'tuple'):
        return None
    out = []
    for op in t[1]:
        if op[0] != 'add' or op[1] != () or op[2] is not T or not is_leaf(op[3]) or not tm.is_str_const(op[3].leaf):
            return None
        out.append(op[3].leaf[2])
    return sorted(out)


def number(t, vals):
    """Fraction of a term; vals: parameter name -> Fraction"""
    if tm.is_const(t) and t[1] in ('int', 'float'):
        return Fraction(str(t[2]))
    if t[0] in ('dcopy', 'scopy'):
        return number(t[1], vals)
    if t[0] == 'param' and t[1] in vals:
        return vals[t[1]]
    if t[0] == 'call' and t[1] in ('Equation.evaluate', 'Equation.eval') and t[2] and t[2][0][0] == 'new':
        e = dict(t[2][0][2]).get('eqn')
        if e is None or not tm.is_const(e):
            raise Unres('equation without text')
        kw = dict(t[3])

        def env(name):
            if name in kw:
                return number(kw[name], vals)
            if '**' in kw:
                v = settle(tm.lookup(kw['**'], tm.const(name), leaf(('missing',))))
                if not is_leaf(v):
                    raise Unres('value of %s' % name)
                if v.leaf == ('missing',):
                    raise Wrong('no value for ' + name)
                return number(v.leaf, vals)
            raise Wrong('no value for ' + name)
        return tree_value(str(e[2]), env)
    raise Unres(show(t, 100))


# entries in the order of the config, constants, inputs, what the outputs are
V = {'v' + n: Fraction(7 + 3 * i * i, 2 + i) for i, n in enumerate('abcdefxy')}


def p(*ns):
    return {n: leaf(('param', 'v' + n)) for n in ns}


EVALS = [
    ('one equation', {'x': 'a + b'}, {}, p('a', 'b'), {}, {'x': 'a + b'}),
    ('several equations', {'x': 'a + b', 'y': 'a * c - b', 'z': 'd'}, {}, p('a', 'b', 'c', 'd'), {}, {'x': 'a + b', 'y': 'a * c - b', 'z': 'd'}),
    ('a single name', {'x': 'a'}, {}, p('a', 'b'), {}, {'x': 'a'}),
    ('constants', {'k': '7', 'x': 'a * k', 'z': 'k - a'}, {'k': 7.0}, p('a'), {}, {'x': 'a * 7', 'z': '7 - a'}),
    ('input named like a constant', {'k': '7', 'x': 'a * k'}, {'k': 7.0}, p('a', 'b') | {'k': leaf(('param', 'vc'))}, {}, {'x': 'a * c'}),
    ('input named like an entry', {'x': 'a + b', 'z': 'a * b'}, {}, p('a', 'b', 'x'), {}, {'x': 'a + b', 'z': 'a * b'}),
    ('entry used by name', {'x': 'a + b', 'z': 'x * c'}, {}, p('a', 'b', 'c'), {}, {'x': 'a + b', 'z': '(a + b) * c'}),
    ('entry used by name, and an input of that name', {'x': 'a + b', 'z': 'x * c'}, {}, p('a', 'b', 'c', 'x'), {}, {'x': 'a + b', 'z': '(a + b) * c'}),
    ('old outputs', {'x': 'a + b', 'z': 'a * b'}, {}, p('a', 'b'), {'x': 17.0, 'z': 18.0}, {'x': 'a + b', 'z': 'a * b'}),
    ('some old outputs', {'x': 'a + b', 'z': 'a * b'}, {}, p('a', 'b'), {'z': 18.0}, {'x': 'a + b', 'z': 'a * b'}),
    ('old outputs used by name', {'x': 'a + b', 'z': 'x * c'}, {}, p('a', 'b', 'c'), {'x': 17.0, 'z': 18.0}, {'x': 'a + b', 'z': '(a + b) * c'}),
    ('output of a name that is no entry', {'x': 'a + b'}, {}, p('a', 'b'), {'w': 17.0}, {'x': 'a + b'}),
    ('old output named like an input', {'x': 'a + b'}, {}, p('a', 'b'), {'a': 17.0}, {'x': 'a + b'}),
    ('zero and negative inputs', {'x': 'a + b'}, {}, {'a': 0.0, 'b': -2.0}, {}, {'x': '0 - 2'}),
    ('no equations', {'k': '7'}, {'k': 7.0}, {}, {}, {}),
    ('more inputs than needed', {'x': 'a'}, {}, p('a', 'b', 'c', 'd', 'e', 'f'), {}, {'x': 'a'}),
    ('many equations', {'x%d' % i: 'a + %d * b' % i for i in range(8)}, {}, p('a', 'b'), {}, {'x%d' % i: 'a + %d * b' % i for i in range(8)}),
]
REFUSED = [
    ('missing one', {'x': 'a + b'}, {}, p('a'), {}), ('missing all', {'x': 'a + b'}, {}, {}, {}), ('missing in the second', {'x': 'a', 'z': 'b'}, {}, p('a'), {}),
    ('missing a single name', {'x': 'a'}, {}, p('b'), {}), ('only in the outputs', {'x': 'a + b'}, {}, p('a'), {'b': 3.0}),
    ('another case', {'x': 'a + b'}, {}, p('a') | {'B': leaf(('param', 'vb'))}, {}), ('part of a name', {'x': 'a + b_1'}, {}, p('a', 'b'), {}),
]
GIVEN = {'x': ('a + b', {'a': 3.5, 'b': -1.25}, {'x': Fraction('2.25')})}


def evaluations(ctx, rep, rule, methods=('evaluate', 'eval'), only=()):
    """the outputs of evaluating configs of a known content"""
    sp = Spec(ctx)
    outa = ctx.returned_attr('NrwalConfig', 'outputs')
    for meth in methods:
        f = ctx.prog.func('NrwalConfig', meth)
        w = where(f)
        ps = [x for x in f.params() if x != 'self']
        n = 0
        for what, ent, consts, inp, old, want in EVALS:
            if only and not any(x in what for x in only):
                continue
            a = args_of(ctx, ent, consts, inp, old)
            if ps:
                a[ps[0]] = tm.cnode(None)
            n += _evaluated(ctx, rep, rule, '%s [%s]' % (w, what), run(ctx, sp, meth, a), outa, want, consts, V, bool(only))
        if ps and not only:
            for txt, vals, want in GIVEN.values():
                for i, old in enumerate(({}, {'x': 17.0})):
                    for before in ({}, {'a': 99.0, 'b': 98.0}, {'a': 99.0}):
                        a = args_of(ctx, {'x': txt}, {}, before, old)
                        a[ps[0]] = vals
                        n += _evaluated(ctx, rep, rule, '%s [inputs given]' % w, run(ctx, sp, meth, a), outa, {'x': txt}, {}, {k: Fraction(str(v)) for k, v in vals.items()})
        if n:
            rep.ok(rule, w, '%d configs of a known content have the outputs their formulas ask for' % n)


def refusals(ctx, rep, rule, methods=('evaluate', 'eval')):
    sp = Spec(ctx)
    for meth in methods:
        f = ctx.prog.func('NrwalConfig', meth)
        w = where(f)
        ps = [x for x in f.params() if x != 'self']
        m = 0
        for what, ent, consts, inp, old in REFUSED:
            a = args_of(ctx, ent, consts, inp, old)
            if ps:
                a[ps[0]] = tm.cnode(None)
            s = run(ctx, sp, meth, a)
            rep.count('configs evaluated')
            pc = settle(s.pc)
            if pc is F:
                m += 1
            elif pc is T:
                rep.bad(rule, w, '%s: the config %s is evaluated with the inputs %s' % (what, ent, sorted(inp)), key=rule + '@refused')
            else:
                rep.unk(rule, w, '%s: %s' % (what, show(pc, 150)))
        if m:
            rep.ok(rule, w, '%d configs without all inputs are refused' % m)


def _evaluated(ctx, rep, rule, w, s, outa, want, consts, vals, values=False):
    rep.count('configs evaluated')
    pc = settle(s.pc)
    if pc is F and values:
        return 0
    if pc is F:
        rep.bad(rule, w, 'the config is refused although every input is given', key=rule + '@accepted')
        return 0
    if pc is not T:
        rep.unk(rule, w, 'evaluated if %s' % show(pc, 150))
        return 0
    ok = 1
    for nm, d in (('returned', s.fz(s.ret)), ('kept as outputs', s.fz(s.state.fields.get((SELF, outa), leaf(('undef',)))))):
        d = settle(tm.val(d))
        if not is_leaf(d) or _strip(d.leaf)[0] != 'dict':
            if is_leaf(d) and d.leaf == tm.NONE:
                rep.bad(rule, w, 'nothing is ' + nm, key=rule + '@none')
            else:
                rep.unk(rule, w, 'the mapping %s: %s' % (nm, show(d, 150)))
            return 0
        t = _strip(d.leaf)
        ks = set()
        for op in tm.dict_ops(t):
            if op[0] != 'set' or op[1] != () or not is_leaf(op[3]) or not tm.is_const(op[3].leaf):
                rep.unk(rule, w, 'the mapping %s: %s' % (nm, show(t, 150)))
                return 0
            g = settle(op[2])
            if g is T:
                ks.add(op[3].leaf[2])
            elif g is not F:
                rep.unk(rule, w, 'the mapping %s: %s if %s' % (nm, op[3].leaf[2], show(g, 100)))
                return 0
        for k in sorted(set(want) | ks, key=str):
            if k in consts:
                continue
            if (k not in ks or k not in want) and values:
                ok = 0
                continue
            if k not in ks or k not in want:
                rep.bad(rule, w, 'the mapping %s has %s output %r' % (nm, 'no' if k not in ks else 'an unexpected', k), key=rule + '@names')
                return 0
            v = settle(tm.lookup(t, tm.const(k), leaf(('missing',))))
            try:
                if not is_leaf(v):
                    raise Unres(show(v, 100))
                got = number(v.leaf, vals)
            except Unres as e:
                rep.unk(rule, w, 'output %s: %s' % (k, e))
                ok = 0
                continue
            except Wrong as e:
                rep.bad(rule, w, 'output %s: %s' % (k, e), key=rule + '@value')
                return 0
            if got != tree_value(want[k], lambda n: vals.get('v' + n, vals.get(n))):
                rep.bad(rule, w, 'output %s of the mapping %s is not %s of the current inputs: %s' % (k, nm, want[k], show(v.leaf, 200)), key=rule + '@value')
                return 0
    return ok


def _strip(t):
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    return t


# entries, constants, inputs -> required, missing
STATES = [
    ({'x': 'a + b'}, {}, (), 'a b', 'a b'), ({'x': 'a + b'}, {}, 'a', 'a b', 'b'), ({'x': 'a + b'}, {}, 'a b', 'a b', ''), ({'x': 'a'}, {}, (), 'a', 'a'),
    ({'x': 'a + b', 'y': 'c * d', 'z': 'a'}, {}, 'a c', 'a b c d', 'b d'), ({'x': 'a', 'y': 'x + b'}, {}, (), 'a b', 'a b'),
    ({'x': 'a', 'y': 'x + b'}, {}, 'x', 'a b', 'a b'), ({'k': '7', 'x': 'a * k'}, {'k': 7.0}, (), 'a', 'a'), ({'x': 'a * k'}, {'k': 7.0}, (), 'a', 'a'),
    ({'k': '0', 'x': 'a * k'}, {'k': 0.0}, (), 'a', 'a'), ({'k': '7'}, {'k': 7.0}, (), '', ''), ({'x': 'a + A'}, {}, 'a', 'A a', 'A'),
    ({'x': 'a + a_1'}, {}, 'a', 'a a_1', 'a_1'), ({'x': 'ab + b'}, {}, 'ab', 'ab b', 'b'), ({'x': 'e1 * 1e-5'}, {}, (), 'e1', 'e1'),
    ({'x': 'np.exp(a) * b'}, {}, 'b', 'a b', 'a'), ({'x': 'a + b', 'y': 'a - b'}, {}, 'b', 'a b', 'a'), ({'x': '(a + b)'}, {}, (), 'a b', 'a b'),
    ({}, {}, 'a', '', ''), ({'x': 'depth', 'y': 'dist * 2'}, {}, 'dist', 'depth dist', 'depth'), ({'x': 'a', 'y': 'b', 'z': 'c'}, {}, 'a b', 'a b c', 'c'),
    ({'x%d' % i: 'v%d + a' % i for i in range(12)}, {}, 'a v3', ' '.join(['a'] + ['v%d' % i for i in range(12)]), ' '.join('v%d' % i for i in range(12) if i != 3)),
]


def inputs(ctx, rep, rule):
    sp = Spec(ctx)
    for meth in ('required_inputs', 'missing_inputs', 'solvable'):
        w = where(ctx.prog.func('NrwalConfig', meth))
        n = 0
        for ent, consts, inp, req, mis in STATES:
            inp = inp.split() if isinstance(inp, str) else inp
            for falsy in ({}, {'v': 0.0}):
                s = run(ctx, sp, meth, args_of(ctx, ent, consts, {k: falsy.get('v', leaf(('param', 'v' + k))) for k in inp}, {}))
                rep.count('configs asked for their inputs')
                v = settle(s.fz(s.ret))
                pc = settle(s.pc)
                if pc is F:
                    rep.bad(rule, w, '%s of %s fails' % (meth, ent), key='%s@%s' % (rule, meth))
                    return
                if meth == 'solvable':
                    t = settle(tm.truth(v))
                    got = True if t is T else False if t is F else None
                    want = not mis
                else:
                    got = names_of(v)
                    got = None if got is None else sorted(set(got))
                    want = sorted((req if meth == 'required_inputs' else mis).split())
                if got is None or pc is not T:
                    rep.unk(rule, w, '%s of %s: %s' % (meth, ent, show(v, 150)))
                elif got != want:
                    rep.bad(rule, w, '%s of the config %s with the constants %s and the inputs %s is %s instead of %s'
                            % (meth, ent, sorted(consts), list(inp), got, want), key='%s@%s' % (rule, meth))
                    return
                else:
                    n += 1
        if n:
            rep.ok(rule, w, '%s of %d configs of a known content' % (meth, n))
