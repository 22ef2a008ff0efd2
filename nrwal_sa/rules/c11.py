"""C11: missing inputs are reported exactly and evaluation is refused."""
import builtins

from .common import *
from . import worlds
from .layers import *
from ..engine import exc_ancestors
from ..mtbdd import atom
from ..spec import Spec
from .. import data

RULES = ['at the evaluator call of an equation the path condition must exclude every variable without a value; the excluded case must raise a '
         'RuntimeError and be no wider than "some variable has no value" (compared as boolean functions of the membership of an arbitrary name)',
         'membership of an arbitrary name in required_inputs / missing_inputs, and solvable, must be the boolean functions the property states',
         'entries of a config are only evaluated where the path condition excludes missing inputs; otherwise a RuntimeError is raised',
         'required_inputs, missing_inputs and solvable specialised on configs of a known content must give the names the property states',
         'the variables of an equation: parse_variables folded on a family of texts (and all shipped formulas) must be the free names of the text']
ASSUMPTIONS = ['memberships of one name in different mappings are independent', 'a variable is not named like a global of the equations module']


def check(ctx, rep):
    rep.part('equation', _equation, ctx, rep)
    rep.part('config inputs', _config, ctx, rep)
    rep.part('config refusal', _refusal, ctx, rep)
    rep.part('known configs', worlds.inputs, ctx, rep, 'known-configs', limit=200)
    rep.part('refused configs', worlds.refusals, ctx, rep, 'known-refusals', limit=200)
    rep.part('variables', _variables, ctx, rep, limit=200)


def _say(rep, rule, w, r, good, bad):
    v, g = r
    if v is True:
        rep.ok(rule, w, good)
    elif v is False:
        rep.bad(rule, w, '%s (case: %s)' % (bad, show(g, 300)), key='%s@%s' % (rule, bad[:40]))
    else:
        rep.unk(rule, w, '%s not shown (%s)' % (good, show(g, 200)))


def nothing_missing(ev_pc, alias):
    """skolemised existentials that the path condition excludes"""
    out = []
    for a in atoms_of(ev_pc):
        if a[0] == 'exists' and band(ev_pc, atom(a)) is F:
            out.append((a, normal(skolem(atom(a)), alias)))
        elif a[0] == 'truth' and band(ev_pc, atom(a)) is F:
            # an empty collection: membership of the arbitrary name in it
            out.append((a, normal(skolem(tm.mk_in(K, a[1])), alias)))
    return out


def _equation(ctx, rep):
    s = ctx.run('Equation', 'evaluate')
    alias = eqn_alias(ctx)
    evs = [ev for ev in s.events if ev.kind == 'call' and ev.name in ('eval', 'builtins.eval')]
    tv = ctx.run('Equation', 'variables')
    own = tm.val(tv.fz(tv.ret))
    for ev in evs:
        args = list(ev.args) + [ev.kw[k] for k in ('globals', 'locals') if k in ev.kw]
        if len(args) < 2:
            rep.unk('equation', ev.where, 'namespace of the evaluator not found')
            continue
        v = value_of(args[-1])
        miss = F
        for g, t in cases(v):
            if t == MISSING:
                miss = bor(miss, g)
        if len(args) == 3:
            pass
        isvar = bind(own, lambda t: tm.mk_in(K, t))
        miss = band(miss, isvar)
        fix = assume_atoms(band(miss, T), common_atoms)
        cand = nothing_missing(ev.pc, lambda t: t)
        cand = [(a, g) for a, g in cand if any(K in _flat(x) for x in atoms_of(g))]
        if not cand:
            rep.bad('equation-refused', ev.where, 'the text is evaluated without a test for missing variables', key='equation-refused@none')
            continue
        tot = F
        for a, g in cand:
            tot = bor(tot, g)
        fix = band(fix, assume_atoms(tot, common_atoms))
        _say(rep, 'equation-refused', ev.where, implied(miss, tot, fix), 'evaluated only if every variable has a value',
             'evaluated although a variable may have no value')
        for a, g in cand:
            if not any(x[0] == 'in' and is_vars(x[2]) for x in atoms_of(g)):
                continue
            _say(rep, 'equation-exact', ev.where, implied(g, miss, fix), 'refused only if a variable has no value',
                 'refused although every variable has a value')
            _raised(rep, s, a, ev, 'equation-error')


def _flat(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        out.add(t)
        for x in t:
            _flat(x, out)
    return out


def _raised(rep, s, a, ev, rule):
    rs = [r for r in s.raises if entails(r.guard, atom(a)) and r.seq <= ev.seq]
    if not rs:
        rep.unk(rule, ev.where, 'raise for missing values not found')
        return
    for r in rs:
        if 'RuntimeError' in exc_ancestors(r.exc):
            rep.ok(rule, r.where, 'missing values raise %s' % r.exc)
        else:
            rep.bad(rule, r.where, 'missing values raise %s instead of a RuntimeError' % r.exc)


def spec_terms(ctx):
    cfg = ('attr', SELF, ctx.store_attr('NrwalConfig'))
    gv = ('attr', SELF, ctx.returned_attr('NrwalConfig', 'global_variables'))
    inp = ('attr', SELF, ctx.returned_attr('NrwalConfig', 'inputs'))
    e = ('index', cfg, ('elem', cfg, 0))
    req = band(tm.mk_isinst(e, 'Equation'), atom(('in', K, ('attr', e, 'variables'))), bnot(atom(('in', K, gv))), bnot(atom(('in', K, cfg))),
               bnot(atom(('in', K, ('attr', e, 'default_variables')))))
    return req, band(req, bnot(atom(('in', K, inp)))), inp


def _membership(ctx, name, alias):
    s = ctx.run('NrwalConfig', name)
    r = s.fz(s.ret)
    m = bind(r, lambda t: tm.mk_in(K, t))
    return s, normal(skolem(m), alias)


def _config(ctx, rep):
    alias = eqn_alias(ctx)
    req, mis, inp = spec_terms(ctx)
    s, m = _membership(ctx, 'required_inputs', alias)
    _say(rep, 'required', where(s.func), equivalent(m, req, assume_atoms(m, common_k)),
         'exactly the variables that are no entry, constant or default', 'required inputs are not exactly the variables without entry, constant or default')
    s, m = _membership(ctx, 'missing_inputs', alias)
    _say(rep, 'missing', where(s.func), equivalent(m, mis, assume_atoms(m, common_k)), 'exactly the required inputs that are not given',
         'missing inputs are not exactly the required inputs that are not given')
    s = ctx.run('NrwalConfig', 'solvable')
    g = normal(skolem(bnot(tm.truth(s.fz(s.ret)))), alias)
    _say(rep, 'solvable', where(s.func), equivalent(g, mis, assume_atoms(g, common_k)), 'solvable exactly if nothing is missing',
         'solvable differs from "nothing is missing"')


def common_k(a):
    if a == ('truth', K) or a == ('isinst', K, 'str'):
        return True
    return None


def _refusal(ctx, rep):
    s = ctx.run('NrwalConfig', 'evaluate')
    alias = eqn_alias(ctx)
    req, mis, inp = spec_terms(ctx)
    pre = given(*[(('isnone', ('param', p)), True) for p in s.func.params() if p != 'self'])
    evs = [ev for ev in s.events if ev.kind in ('mcall', 'call') and str(ev.name).split('.')[-1] in ('evaluate', 'eval')]
    if not evs:
        rep.unk('refusal', where(s.func), 'evaluation of an entry not found')
    for ev in evs:
        rs = [r for r in s.raises if r.seq <= ev.seq and restrict(r.guard, pre) is not F and 'RuntimeError' in exc_ancestors(r.exc)]
        other = [r for r in s.raises if r.seq <= ev.seq and restrict(r.guard, pre) is not F and r not in rs]
        tot = allr = F
        for r in rs:
            tot = bor(tot, restrict(r.guard, pre))
        for r in rs + other:
            allr = bor(allr, restrict(r.guard, pre))
        tot, allr = restrict(normal(skolem(tot), alias), pre), restrict(normal(skolem(allr), alias), pre)
        fix = assume_atoms(allr, common_k)
        v, d = implied(mis, tot, fix)
        if v is True:
            rep.ok('refusal', ev.where, 'entries are evaluated only if nothing is missing, otherwise a RuntimeError is raised')
            _say(rep, 'refusal-exact', ev.where, implied(tot, mis, fix), 'refused only if something is missing', 'refused although nothing is missing')
        elif v is False:
            v2, d2 = implied(mis, allr, fix)
            if v2 is True:
                rep.bad('refusal-error', ev.where, 'missing inputs raise %s instead of a RuntimeError' % sorted({r.exc for r in other}), key='refusal-error')
            elif v2 is False:
                rep.bad('refusal', ev.where, 'an entry is evaluated although inputs may be missing (case: %s)' % show(d2, 300), key='refusal@none')
            else:
                rep.unk('refusal', ev.where, 'test for missing inputs not recognised')
        else:
            rep.unk('refusal', ev.where, 'test for missing inputs not recognised (%s)' % show(d, 200))


# ---------------------------------------------------------------------------- variables of a text
TEXTS = ['a', 'a + b', 'a+b', 'a - b*c / d', 'a ** b', 'a**b', '(a + b) * c', '((a))', 'a * 3', '3 * a', 'a * 1.5', '2', '2.5', '-a', '-2 * a', 'a * -b',
         'a * 1e-5', '1e-5 * a', '1E+6*a', '2.5e3 + a', 'a * 1e10', '1e-20', '.5e-3 * a', 'cap2energy', 'cap2energy * 2', 'x_2015EUR + 1', 'x2e + y', 'a2e5b',
         'cost_10MW', 'turbine_capex_2015', 'e', 'e * 2', 'E5', 'a1 - a2', 'a_1*a_2', '_a + b_', 'a  +  b', ' a + b ', 'np.exp(a)', 'np.exp(a) * b', 'np.log(a + b)',
         'np.sqrt(a*b)/c', 'np.minimum(a, b)', 'np.where(a > b, c, d)', 'np.exp(-a * 2)', 'np.log10(np.abs(a)) + b', 'a > b', 'a<b', 'a>b', 'b*(a>c)', 'a-b', 'a/b', 'a*b', 'a*(b<c)', '(a > 2) * b', 'np_a + inp',
         'a * a * a', 'b + a', 'depth * 1e3 + dist', 'a - 1e-3 - b', 'alpha_1 - alpha', 'A + a', 'a / (b - c) / (d + e_1)', 'np.exp(a, ) * 1',
         'np.interp(a, [1, 2, 3], [4, 5, 6])', 'np.array([1, 2, 3]) * a', 'np.clip(a, 0, 1)', 'pd.isna(a)', 'a*1.0e-05', '0.5*rho*v**3', 'x1e5 + y', 'k3 * 4e2']


def free_names(text):
    out = set()
    t = ast.parse(text.strip(), mode='eval')
    fns = {id(n.func) for n in ast.walk(t) if isinstance(n, ast.Call)}
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and id(n) not in fns and n.id not in ('np', 'pd'):
            out.add(n.id)
    return sorted(x for x in out if not hasattr(builtins, x))


def _variables(ctx, rep):
    sp = Spec(ctx)
    f = ctx.prog.func('Equation', 'parse_variables')
    w = where(f)
    s = ctx.run('Equation', 'variables')
    r = s.fz(s.ret)
    e = ctx.eqn_attr
    for t in leaves(tm.val(r)):
        x = t
        while x[0] in ('sorted', 'dcopy', 'scopy', 'setof'):
            x = x[1]
        if x[0] == 'call' and x[1].endswith('.parse_variables') and len(x[2]) == 1 and peel(x[2][0]) == ('attr', SELF, e):
            rep.ok('variables', where(s.func), 'the parsed variables of the own text')
        else:
            rep.unk('variables', where(s.func), 'variables are %s' % show(t))
    texts = [(t, 'family') for t in TEXTS]
    shipped = []
    import os
    root = os.path.join(ctx.repo, 'NRWAL', 'analysis_library')
    for dp, dn, fn in sorted(os.walk(root)):
        for x in sorted(fn):
            if x.endswith(('.yaml', '.yml', '.json')):
                try:
                    d, _ = data.load(os.path.join(dp, x))
                except Exception:
                    continue
                shipped += [t for t in _strings(d)]
    shipped = sorted({t for t in shipped if isinstance(t, str) and '::' not in t})
    texts += [(t, 'shipped') for t in shipped]
    n = und = 0
    for t, kind in texts:
        try:
            want = free_names(t)
        except SyntaxError:
            continue
        rep.count('texts folded (%s)' % kind)
        got = sp.pred('Equation.parse_variables', tm.const(t))
        if got is None:
            und += 1
            if und <= 3:
                rep.unk('variables-of-text', w, 'not folded on %r' % t)
            continue
        g = tm.pyval(got.leaf) if is_leaf(got) else None
        if g is None:
            und += 1
            continue
        if sorted(set(g)) != want:
            rep.bad('variables-of-text', w, 'the variables of %r are %s instead of %s' % (t[:120], list(g), want), key='variables-of-text@differs')
            return
        n += 1
    if n:
        rep.ok('variables-of-text', w, '%d texts folded: exactly their free names' % n)
    if und > 3:
        rep.unk('variables-of-text', w, '%d texts not folded' % und)


def _strings(d):
    if isinstance(d, dict):
        for v in d.values():
            yield from _strings(v)
    elif isinstance(d, (str, int, float)):
        yield d
