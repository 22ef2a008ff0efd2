"""C06: arithmetic on equation objects means arithmetic on their values."""
from .common import *
from ..fold import Folder, predicate, py_is_num

RULES = ['for each of + - * / ** the text given to the resulting Equation is extracted as a decision diagram over the operand texts; it must be '
         '<left> <operator> <right> with each operand in brackets unless the guard entails that it is a lone number or variable name',
         'the diagram is additionally specialised for every pair of operand shapes (number, negative number, name, sum, difference, product, '
         'quotient, power, negation, call, comparison, partly bracketed) and the syntax tree of the text compared with (left) op (right)',
         'the predicates "is a number" and "is a variable name" must reject every compound shape',
         'default variables of the result: left operand overridden by right operand, key by key']
ASSUMPTIONS = ['operand text is a valid expression', 'constructor stores the text unchanged (C01)']

OPS = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/', '__pow__': '**'}
SHAPES = {'name': 'a', 'long name': 'depth_1', 'number': '5', 'decimal': '1.5', 'exponent': '1e-3', 'negative number': '-5', 'blank negative number': ' -5',
          'sum': 'a + b', 'tight sum': 'a+b', 'difference': 'a - b', 'tight difference': 'a-b', 'product': 'a * b', 'tight product': 'a*b',
          'quotient': 'a / b', 'tight quotient': 'a/b', 'power': 'a ** b', 'tight power': 'a**b', 'negation': '-a', 'call': 'np.exp(a)',
          'bracketed': '(a + b)', 'partly bracketed': '(a) + (b)', 'bracketed difference': '(a + b) - (c + d)', 'comparison': 'a < b',
          'product of sums': '(a + b) * (c + d)', 'two calls': 'np.exp(a) - np.log(b)', 'number first': '2 - a', 'array': 'np.array([1, 2])', 'remainder': 'a % b',
          'floor quotient': 'a // b', 'tight negation': '-(a)', 'sum with line break': 'a +\n b', 'positive sign': '+a', 'comparison with brackets': '(a < b)'}
COMPOUND = ['a + b', 'a+b', 'a - b', 'a-b', 'a * b', 'a*b', 'a / b', 'a/b', 'a ** b', 'a**b', '-a', '(a) + (b)', 'np.exp(a)', 'a < b', 'a>b',
            '2*a', 'a-1', '1/a', 'a ^ b', 'a^b', '[a]', '(a)', '1 + 2', '3-1', 'a==b', 'a % b', 'a // b', 'a//b', '+a', 'a <= b', 'a>=b', 'a != b']


def norm_tree(s):
    try:
        return ast.dump(ast.parse(s.strip().replace('\n', ' '), mode='eval'))
    except SyntaxError:
        return None


def check(ctx, rep):
    A = ctx.eqn_attr
    DV = ctx.def_attr('Equation')
    isvar = predicate(ctx, 'Equation', 'is_variable')
    isnum = predicate(ctx, 'Equation', 'is_num')
    _preds(ctx, rep, isvar, isnum)
    preds = {'Equation.is_variable': isvar, 'Equation.is_num': isnum}
    _kept(ctx, rep, A)
    for name, op in OPS.items():
        f = ctx.prog.cls('Equation').find(name)
        if f is None:
            rep.bad('operator', 'NRWAL Equation', 'operator %s is not defined' % op)
            continue
        s = ctx.run('Equation', name, func=f)
        _operator(ctx, rep, s, op, A, DV, preds)
    rep.floor('operand shape pairs', 3000)


def _preds(ctx, rep, isvar, isnum):
    w = where(ctx.prog.func('Equation', 'is_variable'))
    for c in COMPOUND:
        r = isvar(c)
        rep.judge(None if r is None else not r, 'lone-name', w, '%r is not a lone name' % c, '%r counts as a lone variable name' % c)
    wn = where(ctx.prog.func('Equation', 'is_num'))
    for c in COMPOUND + ['a', '1a', '']:
        r = isnum(c)
        rep.judge(None if r is None else not r, 'lone-number', wn, '%r is not a number' % c, '%r counts as a number' % c)


def _kept(ctx, rep, A):
    """the constructor keeps the meaning of the text it is given"""
    s = ctx.run('Equation', '__init__')
    w = where(s.func)
    p = ('param', s.func.params()[1])
    V = s.fz(s.state.fields.get((SELF, A), leaf(('undef',))))
    for x in [v for v in SHAPES.values()] + ['Depth_2 * aB - 1E-3', 5, -3, 2.5]:
        v = Folder({p: tm.const(x)}).node(V)
        rep.count('texts given to the constructor')
        for t in leaves(v):
            if t[0] == 'str':
                t = t[1]
            if not tm.is_const(t):
                rep.unk('text-kept', w, 'stored text %s' % show(t))
                return
            if norm_tree(str(t[2])) != norm_tree(str(x)):
                rep.bad('text-kept', w, 'Equation(%r) keeps the text %r' % (x, t[2]))
                return
    rep.ok('text-kept', w, 'the stored text has the syntax tree of the given text')


def _operator(ctx, rep, s, op, A, DV, preds):
    w = where(s.func)
    other = ('param', [p for p in s.func.params() if p != 'self'][0])
    ret = s.fz(s.ret)
    conv = ('new', 'Equation', (('eqn', other),))
    is_eqn = tm.mk_isinst(other, 'Equation')
    n = 0
    for g, t in cases(ret):
        if t[0] != 'new' or t[1] != 'Equation':
            if tm.is_const(t) and band(s.pc, g) is not F and t == tm.NONE:
                rep.bad('result', w, '%s can return None' % s.func.name)
            elif t in (SELF, other):
                rep.bad('result', w, '%s can return an operand unchanged' % s.func.name)
            else:
                rep.unk('result', w, 'result %s' % show(t))
            continue
        n += 1
    if not n:
        rep.unk('result', w, 'no Equation returned')
        return
    text = bind(ret, lambda t: leaf(dict(t[2]).get('eqn', ('undef',)) if t[0] == 'new' else ('undef',)))
    text = bind(text, lambda t: tm.unfold(t) if t[0] == 'coll' else (t[1] if t[0] == 'gated' else leaf(t)))
    left = ('attr', SELF, A)
    # 1. shapes
    for eqn_other in (True, False):
        right = ('attr', other, A) if eqn_other else ('attr', conv, A)
        for ln, l in SHAPES.items():
            base = Folder({left: tm.const(l)}, preds)
            for rn, r in SHAPES.items():
                m = {left: tm.const(l), right: tm.const(r)}
                if not eqn_other:
                    m[other] = tm.const(r)
                v = Folder(m, preds).node(restrict(text, is_eqn if eqn_other else bnot(is_eqn)))
                rep.count('operand shape pairs')
                want = norm_tree('(%s) %s (%s)' % (l.strip(), op, r.strip()))
                for x in leaves(v):
                    if tm.is_str_const(x):
                        got = norm_tree(x[2])
                        if got != want:
                            rep.bad('grouping', w, '(%s) %s (%s) becomes the text %r' % (l, op, r, x[2]), key='grouping@%s' % s.func.name)
                            return
                    else:
                        rep.unk('grouping', w, 'text of the result not decided for %s %s %s' % (ln, op, rn))
                        break
    rep.ok('grouping', w, 'same syntax tree as (left) %s (right) for all %d shape pairs' % (op, 2 * len(SHAPES) ** 2))
    # 2. entailment of the bracket guards (every operand text)
    _entail(rep, w, text, op, left, other, A, conv)
    # 3. default variables
    dv = bind(ret, lambda t: leaf(dict(t[2]).get('default_variables', ('absent',)) if t[0] == 'new' else ('undef',)))
    k = ('sym', 'k')
    right_obj = leaf(other)
    right_obj = bind(is_eqn, lambda b: leaf(other) if b == ('const', 'bool', True) or b is True else leaf(conv)) if False else None
    from ..mtbdd import ite
    rd = ite(is_eqn, leaf(('attr', other, DV)), leaf(('attr', conv, DV)))
    ld = leaf(('attr', SELF, DV))
    want = bind(rd, lambda r: ite(tm.mk_in(k, r), leaf(('index', r, k)), bind(ld, lambda l: ite(tm.mk_in(k, l), leaf(('index', l, k)), leaf(('absent',))))))
    got = bind(tm.val(dv), lambda d: leaf(('absent',)) if d in (tm.NONE, ('absent',)) else tm.lookup(d, k, leaf(('absent',))))
    # a text or number operand has no default variables of its own
    noeq = {('attr', conv, DV): ('dict', ())}
    got, want = tm.subst(got, noeq), tm.subst(want, noeq)
    got, want = restrict(got, s.pc), restrict(want, s.pc)
    if got is want:
        rep.ok('default-variables', w, 'right operand over left operand')
    elif all(t[0] in ('absent', 'index') for t in leaves(got)):
        rep.bad('default-variables', w, 'default variable k of the result is %s' % show(got, 300))
    else:
        rep.unk('default-variables', w, show(got, 300))


def _entail(rep, w, text, op, left, other, A, conv):
    rights = [('attr', other, A), ('attr', conv, A), ('str', other), other]
    for g, t in cases(text):
        if t[0] != 'fmt':
            rep.unk('brackets', w, 'text %s' % show(t))
            continue
        parts = t[1]
        tpl, ops = '', []
        for p in parts:
            if isinstance(p, str):
                tpl += p
            else:
                ops.append(p)
                tpl += '\x01' if len(ops) == 1 else '\x02'
        if len(ops) != 2:
            rep.unk('brackets', w, 'text %s' % show(t))
            continue
        for i, mark in enumerate('\x01\x02'):
            j = tpl.index(mark)
            if tpl[:j].rstrip().endswith('(') and tpl[j + 1:].lstrip().startswith(')'):
                rep.ok('brackets', w, 'operand %d bracketed' % (i + 1))
                continue
            x = ops[i]
            lone = bor(tm.mk_truth(('call', 'Equation.is_num', (x,), ())), tm.mk_truth(('call', 'Equation.is_variable', (x,), ())))
            alt = F
            for y in (('str', x), tm.unstr(x)):
                alt = bor(alt, tm.mk_truth(('call', 'Equation.is_num', (y,), ())), tm.mk_truth(('call', 'Equation.is_variable', (y,), ())))
            if entails(g, bor(lone, alt)):
                rep.ok('brackets', w, 'unbracketed operand %d is a lone number or name' % (i + 1))
            else:
                rep.unk('brackets', w, 'operand %d unbracketed under %s' % (i + 1, show(g)))
