"""C08: power / year retrieval."""
from fractions import Fraction
import itertools
import re

from .common import *
from .c07 import Unres, _op, _h
from ..mtbdd import atom
from ..spec import Spec

RULES = ['retrieval from a group is specialised on a constant key, constant flags and a group with constant keys but arbitrary equations (conditional '
         'constant propagation through the suffix patterns, the candidate search and the sorting); the retrieved combination of equations must be the '
         'one the property states: the exact entry, the straight line through the two nearest candidates as a rational function of them, the nearest '
         'candidate, or a KeyError and nothing else',
         'for every request all 16 settings of the four flags, two orders of the entries',
         'a directory passes the last part of a key to the group unchanged']
ASSUMPTIONS = ['operators on equation objects mean arithmetic on their values (C06)', 'the requests and groups of the family are representative of all names and numbers',
               'equality of rational functions is decided by exact evaluation at fixed points']

G1 = ['base', 'a', 'a_4MW', 'a_12MW', 'a_8MW', 'a_20MW', 'ab_5MW', 'a_b_5MW', 'a_7MW_x', 'xa_6MW', 'a_2010', 'a_2020', 'b_100MW', 'b_9MW', 'k_MW']
G2 = ['y', 'y_2010', 'y_2020', 'y_2015', 'y_1999', 'yy_2012', 'z_y_2012', 'y_2012_x', 'y_4MW', 'y_8MW', 'w_2005', 'w_2050']
G3 = ['f_2015_4MW', 'f_2015_8MW', 'f_2010_6MW', 'f_2010_7MW', 'g_5MW_2010', 'g_5MW_2020', 'g_6MW_2014', 'c_2015_fit_2015', 'c_2015_fit_2020',
      'c_2015_fit_2030', 'd_5MW_d_5MW', 'd_5MW_d_9MW', 'd_5MW_d_20MW', 'm_4mw', 'm_8MW', 's_0MW', 's_8MW', 's_20MW']
REQ = [(G1, ['a_4MW', 'a_20MW', 'a', 'a_2020', 'a_7MW', 'a_11MW', 'a_3MW', 'a_30MW', 'a_19MW', 'ab_7MW', 'zz_7MW', 'base_7MW', 'q', 'a_7', 'a_7MWx', 'a_7.5MW',
             'b_8MW', 'b_90MW', 'xa_7MW', 'a_2012', 'a_x_7MW', 'a_0MW', 'a_7MW_x', 'a_b_5MW']),
       (G2, ['y_2010', 'y_2012', 'y_2018', 'y_2030', 'y_1990', 'yy_2015', 'q_2010', 'y_x', 'y_212', 'y_20122', 'z_2012', 'y_5MW', 'w_2010', 'y', 'y_2012_x']),
       (G3, ['f_2015_5MW', 'f_2012_6MW', 'f_2010_3MW', 'g_5MW_2012', 'g_7MW_2012', 'c_2015_fit_2018', 'c_2016_fit_2018', 'd_5MW_d_6MW', 'd_5MW_d_5MW', 'm_5MW', 'm_4MW',
             'f_2015_4MW', 's_6MW'])]


def suffix(key):
    m = re.search(r'^(.*)_([0-9]+)MW$', key, re.I | re.S)
    if m:
        return 'power', m.group(1), Fraction(int(m.group(2)))
    m = re.search(r'^(.*)_([12][0-9]{3})$', key)
    if m:
        return 'year', m.group(1), Fraction(int(m.group(2)))
    return None, key, None


def expected(keys, req, flags):
    """('key', k) | ('line', k1, x1, k2, x2, v) | ('raise',)"""
    if req in keys:
        return ('key', req)
    kind, base, v = suffix(req)
    if kind is None or not flags[kind]:
        return ('raise',)
    interp = flags[kind][0]
    cand = []
    for k in keys:
        k2, b2, x = suffix(k)
        if k2 == kind and b2 == base:
            cand.append((abs(x - v), k, x))
    cand.sort()
    if not (interp or flags[kind][1]) or not cand:
        return ('raise',)
    if interp and len(cand) > 1:
        return ('line', cand[0][1], cand[0][2], cand[1][1], cand[1][2], v)
    return ('key', cand[0][1])


def flag_attrs(ctx, cn):
    s = ctx.run(cn, '__init__')
    out = {}
    for (o, a), v in s.state.fields.items():
        if o == SELF and is_leaf(v) and v.leaf[0] == 'param' and v.leaf[1] in FLAGS:
            out[v.leaf[1]] = a
    return out


def val(t, env):
    h = t[0]
    if h == 'bin':
        return _op(t[1], val(t[2], env), val(t[3], env))
    if h == 'neg':
        return -val(t[1], env)
    if h in ('dcopy', 'scopy'):
        return val(t[1], env)
    if tm.is_num_const(t):
        return Fraction(str(t[2]))
    if h == 'call' and t[1] == 'float' and len(t[2]) == 1:
        return val(t[2][0], env)
    if h == 'call' and t[1] == 'int' and len(t[2]) == 1:
        return Fraction(int(val(t[2][0], env)))
    if h == 'call' and t[1] in ('round', 'numpy.round', 'numpy.around') and t[2] and not t[3]:
        x, n = val(t[2][0], env), val(t[2][1], env) if len(t[2]) > 1 else 0
        return x + 1 + abs(x) if n < 9 else x       # values of equations can be smaller than any rounding
    if h == 'param' and t[1].startswith('?'):
        return env(t[1][1:])
    if h == 'mcall' and t[2] in ('eval', 'evaluate') and not t[3] and not t[4]:
        return val(t[1], env)
    if h == 'new' and t[1] == 'Equation':
        e = dict(t[2]).get('eqn')
        if e is not None:
            while e[0] == 'str':
                e = e[1]
            return val(e, env)
    if h == 'mcall' and t[2] in ('__add__', '__sub__', '__mul__', '__truediv__') and len(t[3]) == 1:
        return _op({'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/'}[t[2]], val(t[1], env), val(t[3][0], env))
    raise Unres(show(t))


def hint(t):
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    if t[0] == 'param' and t[1].startswith('?'):
        return 'Equation'
    if t[0] == 'bin' and (hint(t[2]) or hint(t[3])):
        return 'Equation'
    return None


def check(ctx, rep):
    rep.part('retrieval', _retrieval, ctx, rep, limit=400)
    rep.part('nested', _nested, ctx, rep, limit=150)
    rep.part('directory', _directory, ctx, rep)


def run(ctx, sp, fa, keys, req, fl, nested=None):
    st = ctx.store_attr('EquationGroup')
    content = {k: leaf(('param', '?' + k)) for k in keys}
    for n, ks in (nested or {}).items():
        content[n] = leaf(('dict', tuple(('set', (), T, tm.cnode(k), leaf(('param', '?' + n + '::' + k))) for k in ks)))
    f = ctx.prog.func('EquationGroup', '__getitem__')
    a = {'self.' + st: content, [p for p in f.params() if p != 'self'][0]: tm.cnode(req)}
    for n in FLAGS:
        if n in fa:
            a['self.' + fa[n]] = tm.cnode(fl[n])
    s = sp.run('EquationGroup', '__getitem__', a, hint=hint, stop=tuple(PREDICATES) + ('Equation.__init__',), raise_hint=lambda types, sig: F)
    c = ctx.prog.cls('Equation')
    if c.find('__bool__') is None and c.find('__len__') is None:
        # objects without these methods are true
        al = lambda x: T if x[0] == 'truth' and hint(x[1]) else None
        s.pc = _fixed(s.pc, al)
        v = _fixed(s.fz(s.ret), al)
        s.fz = lambda x: v
        for r in s.raises:
            r.guard = _fixed(r.guard, al)
    return s


def _fixed(v, f):
    g = T
    for a in atoms_of(v):
        if f(a) is T:
            g = band(g, atom(a))
    return restrict(v, g)


def settings():
    for bits in itertools.product((False, True), repeat=4):
        d = dict(zip(('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year', 'use_nearest_year'), bits))
        yield d, {'power': (d['interp_extrap_power'], d['use_nearest_power']), 'year': (d['interp_extrap_year'], d['use_nearest_year'])}


def _frozen(t, g):
    """the equation is replaced by its value now, in a case that does not exclude variables"""
    while t[0] in ('dcopy', 'scopy', 'str') or t[0] == 'call' and t[1] == 'float' and len(t[2]) == 1:
        t = t[1] if t[0] != 'call' else t[2][0]
    if t[0] == 'new' and t[1] == 'Equation':
        e = dict(t[2]).get('eqn')
        return e is not None and _frozen(e, g)
    if not (t[0] == 'mcall' and t[2] in ('eval', 'evaluate') and not t[3] and not t[4] and hint(t[1])):
        return False
    if g is T:
        return True
    for a in atoms_of(g):
        if a[0] == 'exists' and all(c[0] == 'attr' and c[2] == 'variables' for c, _ in a[1]) and 'default_variables' in show(a[2], 2000):
            continue
        return False
    return True


def verdict(s, want):
    """(True, '') | (False, what) | (None, what)"""
    for ev in s.events:
        if ev.kind == 'call' and ev.name in ('float', 'int') and ev.pc is T and not ev.chain and ev.args and is_leaf(ev.args[0]) and tm.is_str_const(ev.args[0].leaf):
            try:
                {'float': float, 'int': int}[ev.name](ev.args[0].leaf[2])
            except ValueError:
                return False, '%s(%r) fails' % (ev.name, ev.args[0].leaf[2])
    if want[0] == 'raise':
        rs = [r for r in s.raises if r.guard is not F]
        if s.pc is F and rs and all(r.exc == 'KeyError' for r in rs):
            return True, ''
        if s.pc is F and rs and all(r.guard is T for r in rs):
            return False, '%s instead of a KeyError' % rs[0].exc
        if s.pc is T:
            return False, 'yields %s instead of a KeyError' % show(s.fz(s.ret), 120)
        return None, 'raises if %s' % show(bnot(s.pc), 100)
    if s.pc is F:
        rs = [r for r in s.raises if r.guard is not F]
        if rs:
            return False, 'raises %s' % rs[0].exc
        return None, 'no result'
    got = s.fz(s.ret)
    for g, t in cases(got):
        if band(g, s.pc) is F:
            continue
        if t == ('undef',) or t == tm.NONE:
            if g is T or all(a[0] == 'truth' for a in atoms_of(g)):
                return False, 'yields %s' % t[0]
            return None, 'undefined if %s' % show(g, 80)
        if want[0] == 'line' and _frozen(t, g):
            return False, 'is calculated at once although it has variables (%s)' % show(t, 100)
        for i in range(3):
            env = lambda n, i=i: _h('eqn', i, n)
            try:
                x = val(t, env)
            except (Unres, ZeroDivisionError) as e:
                return None, str(e)[:150]
            if want[0] == 'key':
                y = env(want[1])
                u = t
                while u[0] in ('dcopy', 'scopy'):
                    u = u[1]
                if u[0] == 'bin' and hint(u):
                    return False, 'yields %s' % show(t, 140)
            else:
                _, k1, x1, k2, x2, v = want
                y = env(k1) + (env(k2) - env(k1)) * (v - x1) / (x2 - x1)
            if abs(x - y) > Fraction(1, 10**9) * max(1, abs(y)):
                return False, 'yields %s' % show(t, 140)
    if s.pc is not T:
        return None, 'raises if %s' % show(bnot(s.pc), 100)
    return True, ''


def describe(want):
    if want[0] == 'key':
        return 'the entry ' + want[1]
    if want[0] == 'line':
        return 'the line through %s and %s' % (want[1], want[3])
    return 'a KeyError'


def _retrieval(ctx, rep):
    sp = Spec(ctx)
    fa = flag_attrs(ctx, 'EquationGroup')
    f = ctx.prog.func('EquationGroup', '__getitem__')
    w = where(f)
    if len(fa) < 4:
        rep.unk('retrieval', w, 'flags of the group not found')
        return
    for keys, reqs in REQ:
        for req in reqs:
            tot, und = 0, []
            bad = False
            for fl, by in settings():
                for order in ((keys, keys[::-1]) if ctx.tier == 'thorough' or fl['interp_extrap_power'] != fl['use_nearest_year'] else (keys,)):
                    want = expected(keys, req, by)
                    s = run(ctx, sp, fa, order, req, fl)
                    rep.count('retrievals specialised')
                    tot += 1
                    ok, what = verdict(s, want)
                    if ok is False:
                        bad = True
                        on = [k for k in FLAGS if fl[k]]
                        rep.bad('retrieval', w, 'request %r with %s from %s: %s, expected %s' % (
                            req, ', '.join(on) or 'no flag', [k for k in keys if suffix(k)[1] == suffix(req)[1]], what, describe(want)), key='retrieval@' + req)
                        break
                    elif ok is None:
                        und.append(what)
                if bad:
                    break
            if bad:
                continue
            if und:
                rep.unk('retrieval', w, 'request %r: %d of %d cases (%s)' % (req, len(und), tot, und[0]))
            else:
                rep.ok('retrieval', w, 'request %r: %d flag settings and orders' % (req, tot))


def _nested(ctx, rep):
    sp = Spec(ctx)
    fa = flag_attrs(ctx, 'EquationGroup')
    w = where(ctx.prog.func('EquationGroup', '__getitem__'))
    if len(fa) < 4:
        return
    nest = {'sub': ['a_4MW', 'a_8MW', 'e', 'y_2010', 'y_2020'], 'a_6MW': ['a_4MW', 'a_8MW'], 'n_2010': ['e']}
    for path, sub in (('sub', 'a_5MW'), ('sub', 'a_4MW'), ('sub', 'y_2014'), ('sub', 'e'), ('sub', 'b_5MW'), ('a_6MW', 'a_6MW'), ('n_2012', 'e')):
        bad = False
        und = []
        for fl, by in settings():
            keys = nest.get(path)
            if keys is None:
                want = ('raise',)
            else:
                want = expected(keys, sub, by)
                want = tuple(path + '::' + x if isinstance(x, str) and i % 2 == 1 else x for i, x in enumerate(want))
            s = run(ctx, sp, fa, ['a_3MW', 'y_2011'], path + '::' + sub, fl, nest)
            rep.count('retrievals specialised')
            ok, what = verdict(s, want)
            if ok is False:
                bad = True
                rep.bad('nested', w, 'request %r with %s: %s, expected %s' % (path + '::' + sub, [k for k in FLAGS if fl[k]], what, describe(want)),
                        key='nested@' + path + '::' + sub)
                break
            if ok is None:
                und.append(what)
        if not bad:
            if und:
                rep.unk('nested', w, 'request %r: %s' % (path + '::' + sub, und[0]))
            else:
                rep.ok('nested', w, 'request %r: 16 flag settings' % (path + '::' + sub))


def _directory(ctx, rep):
    sp = Spec(ctx)
    f = ctx.prog.func('EquationDirectory', '__getitem__')
    st = ctx.store_attr('EquationDirectory')
    w = where(f)
    g = ('param', '?group')
    for key, last in (('g::a_5MW', 'a_5MW'), ('g.yaml::y_2012', 'y_2012'), ('g::a_5.5MW', 'a_5.5MW')):
        s = sp.run('EquationDirectory', '__getitem__', {'self.' + st: {'g': leaf(g)}, [p for p in f.params() if p != 'self'][0]: tm.cnode(key)},
                   hint=lambda t: 'EquationGroup' if t == g else None, stop=tuple(PREDICATES) + ('EquationGroup.__getitem__', 'AbstractGroup.__getitem__'),
                   raise_hint=lambda types, sig: F)
        got = s.fz(s.ret)
        ls = [t for c, t in cases(got) if band(c, s.pc) is not F]
        ok = len(ls) == 1 and (ls[0] == ('index', g, tm.const(last)) or ls[0][0] in ('mcall', 'call') and tm.tmentions(ls[0], g) and tm.const(last) in _args(ls[0]))
        if ok and s.pc is T:
            rep.ok('directory', w, 'key %r: the group is asked for %r' % (key, last))
        elif len(ls) == 1 and ls[0][0] == 'index' and ls[0][1] == g and tm.is_const(ls[0][2]):
            rep.bad('directory', w, 'key %r: the group is asked for %r' % (key, ls[0][2][2]), key='directory@' + key)
        else:
            rep.unk('directory', w, 'key %r: %s' % (key, show(got, 150)))


def _args(t):
    out = []
    for x in t[2:]:
        if isinstance(x, tuple):
            out += list(x)
    return out
