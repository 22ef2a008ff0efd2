"""C07: formula text in configs and retrieval keys obeys ordinary arithmetic."""
from fractions import Fraction
import hashlib
import itertools

from .common import *
from ..mtbdd import atom_term
from ..spec import Spec

RULES = ['constant propagation of every formula text of a finite family (all operator sequences up to length 3, bracketings, leading minus, '
         'number / name / reference operands, blank and tight spelling) from the public entry through the recursive splitting code; the resulting '
         'combination of operand objects must be the same rational function as the formula read with the usual precedence and associativity',
         'no formula of the family may be refused, and no entry may return nothing',
         'text that cannot be interpreted must end in a raise on every path']
ASSUMPTIONS = ['operators on equation objects mean arithmetic on their values (C06)', 'names are not operators and contain no brackets',
               'equality of rational functions is decided by exact evaluation at fixed points, ** and calls as uninterpreted functions']

NAMES = 'abcdefg'


class Unres(Exception):
    pass


class Wrong(Exception):
    pass


def _h(*xs):
    d = hashlib.sha256(repr(xs).encode()).hexdigest()
    return Fraction(int(d[:12], 16) + 2, 999983)


def _op(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            raise Unres('division by zero')
        return a / b
    if op == '**':
        return _h('pow', a, b)
    raise Wrong('operator ' + op) if op in ('//', '%', '@', '<<', '>>', '&', '|') else Unres('operator ' + op)


def point(i):
    return lambda name: _h('var', i, name)


def tree_value(src, env, binds=None):
    """value of a formula text under the usual reading"""
    binds = binds or {}
    refs = {}

    def name_of(s):
        return refs.get(s, s)
    txt = src.replace('^', '**')
    import re
    for i, r in enumerate(sorted(set(re.findall(r'[A-Za-z_]\w*(?:::\w+)+', txt)), key=len, reverse=True)):
        k = 'REF%d_' % i
        refs[k] = r
        txt = txt.replace(r, k)
    e = ast.parse(txt.strip(), mode='eval').body

    def ev(n):
        if isinstance(n, ast.BinOp):
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}[type(n.op)]
            return _op(op, ev(n.left), ev(n.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return Fraction(str(n.value))
        if isinstance(n, ast.Name):
            nm = name_of(n.id)
            if nm in binds:
                return tree_value(str(binds[nm]), env, binds)
            return env(nm)
        if isinstance(n, ast.Call):
            return _h('call', ast.dump(n.func), *[ev(x) for x in n.args])
        raise Unres(ast.dump(n))
    return ev(e)


def term_value(t, env, binds):
    h = t[0]
    if h == 'bin':
        return _op(t[1], term_value(t[2], env, binds), term_value(t[3], env, binds))
    if h == 'neg':
        return -term_value(t[1], env, binds)
    if h in ('dcopy', 'scopy'):
        return term_value(t[1], env, binds)
    if h == 'const' and t[1] in ('int', 'float'):
        return Fraction(str(t[2]))
    if h == 'call' and t[1] == 'float' and len(t[2]) == 1 and tm.is_const(t[2][0]):
        return Fraction(str(t[2][0][2]))
    if h == 'new' and t[1] == 'Equation':
        e = dict(t[2]).get('eqn')
        while e is not None and e[0] == 'str':
            e = e[1]
        if e is None:
            raise Unres('equation without text')
        if tm.is_const(e):
            try:
                return tree_value(str(e[2]), env, binds)
            except SyntaxError:
                if not any(c.isalnum() for c in str(e[2])):
                    raise Wrong()
                raise Unres('text %r' % (e[2],))
        return term_value(e, env, binds)
    if h == 'index' and tm.is_str_const(t[2]):
        # an entry of the library / group
        path = [t[2][2]]
        u = t[1]
        while u[0] == 'index' and tm.is_str_const(u[2]):
            path.insert(0, u[2][2])
            u = u[1]
        return env('::'.join(path))
    raise Unres(show(t))


def family(tier):
    ops = ['+', '-', '*', '/', '**']
    out = []
    for n in (1, 2, 3):
        for seq in itertools.product(ops, repeat=n):
            s = 'a'
            for o, x in zip(seq, 'bcd'):
                s += ' %s %s' % (o, x)
            out.append(s)
    for p, q in itertools.product(ops, repeat=2):
        out.append('(a %s b) %s c' % (p, q))
        out.append('a %s (b %s c)' % (p, q))
        out.append('a%sb%sc' % (p, q))
        out.append('((a %s b)) %s c' % (p, q))
        out.append('a %s ((b) %s c)' % (p, q))
        out.append('2 %s a %s 1.5' % (p, q))
    trip = list(itertools.product(ops, repeat=3))
    if tier != 'thorough':
        trip = [t for i, t in enumerate(trip) if i % 3 == 0 or t in (('-', '-', '-'), ('/', '/', '/'), ('-', '+', '-'))]
    for p, q, r in trip:
        out.append('(a %s b) %s (c %s d)' % (p, q, r))
        out.append('a %s (b %s (c %s d))' % (p, q, r))
        out.append('((a %s b) %s c) %s d' % (p, q, r))
        if tier == 'thorough':
            out.append('a %s (b %s c) %s d' % (p, q, r))
            out.append('(a %s (b %s c)) %s d' % (p, q, r))
    out += ['(a - b) / (a - b)', '(a + b) * c - (a + b)', 'a - (b - c) - (b - c)', 'a / (b * c) / (b * c)', 'alpha_1 - alpha - alpha_1_2',
            '(a) * (ab)', 'a * (b + c) * (d - e) / f', 'a - b - c - d - e', 'a / b / c / d / e', 'a - b * c / d ** e + f', 'rate - b', 'rate-b - base', 'x2e - b', 'a2e-b', 'ae + be', '(a)', '((a))'][:-2]
    return out


CONFIG_ONLY = ['-a', '-a + b', '-a * b', '-a ** b', '-(a + b)', '-a - b', 'a * -b', 'a / -b', 'a - -b', 'a ** -b', '-(a - b) * c', '(-a) * b',
               '-2 * a', 'a + -b - c', 'a * 1e-5', '1e-5 - a', 'a - 2.5E+3 * b', 'np.exp(a) * b', 'b / np.sqrt(a) / c', 'np.exp(a) - np.log(b)',
               'a - np.exp(b) - c', '(a - b) * np.exp(c)', 'np.exp(a) ** b', 'rate-2', 'x2e-2', 'x2e+2 - b', 'a_1e-2 * b', 'depth_2E - 3', '2 * rate-1e-3 * base', '1.5e-3-rate', 'rate - 2e-3-a',
               'a + .5e-2', '3e5 / 2e+3 / a', 'b ** 2e-1', 'a*b-1', 'pi_1-1']
BAD_KEY = ['a +', 'a -', '* a', 'a ** ', 'a [b] + c', 'a + {b}', '(a + b', 'a + b)']
BAD_CONFIG = ['(a + b', 'a[b] + c', 'a + {b}']


TRUTHY = [False]     # objects of the package have neither __bool__ nor __len__


def check(ctx, rep):
    TRUTHY[0] = not any(c.find(m) for n in ('Equation', 'EquationGroup', 'EquationDirectory') for c in [ctx.prog.cls(n)] for m in ('__bool__', '__len__'))
    sp = Spec(ctx)
    forms = family(ctx.tier)
    for cn in ('EquationGroup', 'EquationDirectory'):
        rep.part('retrieval keys of ' + cn, _keys, ctx, rep, sp, cn, forms)
    rep.part('config expressions', _config, ctx, rep, sp, forms + CONFIG_ONLY)
    rep.part('config references', _config_refs, ctx, rep, sp)
    rep.part('uninterpretable text', _bad_text, ctx, rep, sp)
    rep.floor('formula texts propagated', 900)


def assume(v, names):
    """restrict a diagram to: names of the formula exist, nothing else of interest does, retrieved objects are not None"""
    g = T
    for a in atoms_of(v):
        if a[0] == 'in' and tm.is_str_const(a[1]):
            lit = a[1][2] in names
        elif a[0] == 'isnone' and a[1][0] in ('index', 'bin', 'new'):
            lit = False
        elif a[0] == 'truth' and TRUTHY[0] and a[1][0] in ('index', 'bin', 'new'):
            lit = True
        else:
            continue
        from ..mtbdd import atom
        g = band(g, atom(a) if lit else bnot(atom(a)))
    return g


def names_in(src):
    import re
    out = set(re.findall(r'[A-Za-z_][\w.]*(?:::\w+)*', src))
    for x in list(out):
        out |= set(x.split('::'))
    return out


def judge(rep, rule, w, src, v, pc, names, binds=None):
    """True held, False violated, None undecided"""
    g = band(assume(v, names), assume(pc, names))
    v, pc = restrict(v, g), restrict(pc, g)
    if band(pc, g) is F or pc is F:
        rep.bad(rule, w, 'the formula %r is refused' % src, key='%s@refused' % rule)
        return False
    if len(leaves(v)) > 64:
        rep.unk(rule, w, '%r: too many cases' % src)
        return None
    verdict = True
    for gg, t in cases(v):
        if band(gg, band(g, pc)) is F:
            continue
        if t in (tm.NONE, tm.UNDEF, ('missing',), ('absent',)):
            if t == tm.UNDEF:
                continue
            rep.bad(rule, w, 'the formula %r yields nothing' % src, key='%s@nothing' % rule)
            return False
        bad = False
        try:
            for i in range(3):
                env = point(i)
                if term_value(t, env, binds or {}) != tree_value(src, env, binds or {}):
                    bad = True
                    break
        except Wrong:
            bad = True
        except Unres as e:
            rep.unk(rule, w, '%r: %s' % (src, e))
            verdict = None
            continue
        if bad:
            rep.bad(rule, w, 'the formula %r is read as %s' % (src, show(pretty(t), 200)), key='%s@meaning' % rule)
            return False
    return verdict


def pretty(t):
    if t[0] == 'bin':
        return ('bin', t[1], pretty(t[2]), pretty(t[3]))
    if t[0] == 'index' and tm.is_str_const(t[2]):
        return ('param', t[2][2])
    if t[0] == 'new' and t[1] == 'Equation' and tm.is_const(dict(t[2]).get('eqn', ('?',))):
        return ('param', str(dict(t[2])['eqn'][2]))
    return t


def _keys(ctx, rep, sp, cn, forms):
    f = ctx.prog.func(cn, '__getitem__')
    w = where(f)
    n = u = 0
    p = [x for x in f.params() if x != 'self'][0]
    for src in forms:
        s = sp.run(cn, '__getitem__', {p: tm.cnode(src)})
        rep.count('formula texts propagated')
        r = judge(rep, 'retrieval key', w, src, s.fz(s.ret), s.pc, names_in(src))
        if r is False:
            return
        n += r is True
        u += r is None
        if u > 12:
            rep.unk('retrieval key', w, 'remaining formulas not analysed')
            return
    if n:
        rep.ok('retrieval key', w, '%d formulas have the usual meaning' % n)


def cfg_run(ctx, sp, entries, names):
    f = ctx.prog.func('NrwalConfig', '__init__')
    ps = f.params()
    s = sp.run('NrwalConfig', '__init__', {ps[1]: dict(entries), 'inputs': tm.cnode(None)},
               stop=tuple(PREDICATES) + ('EquationDirectory.__init__',), hint=sp.equation_hint, raise_hint=sp.library(names))
    store = ctx.store_attr('NrwalConfig')
    d = s.fz(s.state.fields.get((SELF, store), leaf(('undef',))))
    return s, d


def _config(ctx, rep, sp, forms):
    f = ctx.prog.func('NrwalConfig', '__init__')
    w = where(f)
    n = u = 0
    for i, src in enumerate(forms):
        # operands are input variables, and (every fourth formula) library entries
        lib = names_in(src) if i % 4 == 3 and 'np.' not in src else ()
        s, d = cfg_run(ctx, sp, {'x': src}, lib)
        v = bind(d, lambda t: tm.lookup(t, tm.const('x'), leaf(('missing',))))
        rep.count('formula texts propagated')
        r = judge(rep, 'config expression', w, src, v, s.pc, names_in(src))
        if r is False:
            return
        n += r is True
        u += r is None
        if u > 12:
            rep.unk('config expression', w, 'remaining formulas not analysed')
            return
    if n:
        rep.ok('config expression', w, '%d formulas have the usual meaning' % n)


REFS = [
    {'x': 'p - q', 'p': 'a - b', 'q': 'c - d'},
    {'x': 'p / q / p', 'p': 'a + b', 'q': 'c * d'},
    {'x': 'p ** q', 'p': 'a * b', 'q': 'c - 1'},
    {'x': 'k * a - k', 'k': 5},
    {'x': 'a / k / k', 'k': 2.5},
    {'x': '(p - k) * (p - k)', 'p': 'a - b', 'k': 3},
    {'x': '-p', 'p': 'a + b'},
    {'x': 'p', 'p': 'a - b - c'},
    {'x': 'a ** k', 'k': -2},
    {'p': 'a - b', 'x': 'c - p'},
    {'x': 'c - (p - a)', 'p': 'q / b', 'q': 'a + 1'},
    {'x': 'p_1 - p', 'p': 'a - b', 'p_1': 'a + b'},
]


def _config_refs(ctx, rep, sp):
    w = where(ctx.prog.func('NrwalConfig', '__init__'))
    n = 0
    for cfg in REFS:
        names = set()
        for x in cfg.values():
            names |= names_in(str(x))
        s, d = cfg_run(ctx, sp, cfg, ())
        v = bind(d, lambda t: tm.lookup(t, tm.const('x'), leaf(('missing',))))
        rep.count('formula texts propagated')
        binds = {k: x for k, x in cfg.items() if k != 'x'}
        r = judge(rep, 'config reference', w, cfg['x'], v, s.pc, names, binds)
        if r is False:
            return
        n += r is True
    if n:
        rep.ok('config reference', w, '%d formulas over other entries have the usual meaning' % n)


def _bad_text(ctx, rep, sp):
    for cn in ('EquationGroup', 'EquationDirectory'):
        f = ctx.prog.func(cn, '__getitem__')
        p = [x for x in f.params() if x != 'self'][0]
        for src in BAD_KEY:
            s = sp.run(cn, '__getitem__', {p: tm.cnode(src)}, raise_hint=sp.library(('a', 'b', 'c')))
            _refused(rep, where(f), 'retrieval key', src, s, s.fz(s.ret))
    for src in BAD_CONFIG:
        s, d = cfg_run(ctx, sp, {'x': src}, ())
        v = bind(d, lambda t: tm.lookup(t, tm.const('x'), leaf(('missing',))))
        _refused(rep, where(s.func), 'config expression', src, s, v)


def _refused(rep, w, what, src, s, v):
    rep.count('uninterpretable texts')
    g = band(assume(v, {'a', 'b', 'c'}), assume(s.pc, {'a', 'b', 'c'}))
    pc = band(s.pc, g)
    if pc is F or restrict(s.pc, g) is F:
        rep.ok('refused', w, '%s %r ends in a raise' % (what, src))
        return
    v = restrict(restrict(v, g), pc)
    if is_leaf(v) and v.leaf == tm.NONE:
        rep.bad('refused', w, '%s %r is ignored instead of refused' % (what, src))
        return
    unsure = any(a[0] == 'raises' for a in atoms_of(s.pc))
    if restrict(s.pc, g) is T and not unsure and all(_plain(t) for t in leaves(v)):
        rep.bad('refused', w, '%s %r is accepted as %s' % (what, src, show(pretty(leaves(v)[0]))))
    else:
        rep.unk('refused', w, '%s %r not shown to be refused' % (what, src))


def _plain(t):
    if t[0] == 'bin':
        return _plain(t[2]) and _plain(t[3])
    if t[0] == 'new' and t[1] == 'Equation' and tm.is_const(dict(t[2]).get('eqn', ('?',))):
        try:
            ast.parse(str(dict(t[2])['eqn'][2]).strip(), mode='eval')
        except SyntaxError:
            return False        # refused when it is evaluated
        return True
    return t[0] in ('index', 'const', 'dcopy')
