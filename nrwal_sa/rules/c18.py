"""C18: references between equations of a group are substituted as whole names."""
import ast
import os
import re

from .common import *
from .layers import *
from ..mtbdd import atom
from ..spec import Spec
from .. import data

RULES = ['the constructor of a group is folded on a family of group dictionaries (names that are parts of other names, chains, repeated and tight '
         'occurrences, method names, numbers); the formula kept for every entry must parse to the same syntax tree as the formula with every complete '
         'name replaced by the bracketed formula it stands for, and must keep the name of the entry',
         'replacing an equation yields an equation with the new text, the same name and the same default variables (terms of the constructor arguments)']
ASSUMPTIONS = ['the family of names and formulas stands for all groups: the substitution decides by name boundaries only, not by particular names']

NAME = re.compile(r'(?<![\w.])[A-Za-z_]\w*')

GROUPS = [
    ('a plain reference', {'a': 'b + 1', 'b': 'x'}),
    ('no reference', {'a': 'x + 1', 'b': 'y'}),
    ('brackets around a sum', {'a': 'b * 2', 'b': 'x + y'}),
    ('brackets behind a minus', {'a': 'z - b', 'b': 'x - y'}),
    ('brackets under a power', {'a': 'b**2', 'b': '-x'}),
    ('brackets as an exponent', {'a': 'z**b', 'b': 'x + 1'}),
    ('brackets behind a division', {'a': '1 / b', 'b': 'x * y'}),
    ('a name that starts another name', {'cost': 'x * 2', 'total': 'cost + cost_total + costs + cost2'}),
    ('a name that ends another name', {'cost': 'x * 2', 'total': 'xcost + total_cost + cost'}),
    ('a name inside another name', {'cost': 'x * 2', 'total': 'a_cost_b + acostb + cost'}),
    ('a prefix in the group, the long name too', {'cost': 'x', 'cost_total': 'y', 'sum': 'cost_total + cost'}),
    ('a suffix in the group, the long name too', {'cost': 'x', 'total_cost': 'y', 'sum': 'total_cost + cost'}),
    ('numbered names', {'x1': 'y + 1', 'x10': 'z + 1', 'x100': 'w', 's': 'x1 + x10 + x100 + x1000'}),
    ('one-letter names', {'e': 'x', 'a': '1e5 * e + e1 + ee + 2e-3', 'x2': 'e'}),
    ('several occurrences', {'b': 'x + 1', 'a': 'b * b + b / (b - 2)'}),
    ('tight spelling', {'b': 'x+1', 'a': '2*b+b/(b-b)*b**b'}),
    ('a whole formula', {'a': 'b', 'b': 'c', 'c': 'x - y'}),
    ('a chain', {'a': 'b * 2', 'b': 'c + 1', 'c': 'd - 1', 'd': 'e / f', 'e': 'g + h', 'g': 'i * 3'}),
    ('a chain from the other end', {'z': 'y * 2', 'y': 'x + 1', 'x': 'w - 1', 'w': 'v / u', 'v': 't + s', 't': 'r * 3'}),
    ('a diamond', {'a': 'b + c', 'b': 'd * 2', 'c': 'd - 2', 'd': 'x + y'}),
    ('a method with the name of an entry', {'exp': 'x + 1', 'a': 'np.exp(y) + exp', 'log': 'exp * 2', 'b': 'np.log(log)'}),
    ('an argument of a method', {'b': 'x + 1', 'a': 'np.maximum(b, 0) * np.exp(b)'}),
    ('a module with the name of an entry', {'p': 'x + 1', 'a': 'np.exp(y) + p'}),
    ('numbers', {'i': 3, 'f': 1.5, 'n': -2, 's': '4', 'a': 'i + f * n**2 - s', 'b': 'n', 'c': 'x - n'}),
    ('letter case', {'Cost': 'x', 'cost': 'y', 'a': 'COST + Cost + cost'}),
    ('underscores', {'_a': 'x', '__b': 'y', 'c': '_a + __b + a + b + _a_'}),
    ('order of the names', {'b_2': 'x', 'b': 'y', 'a': 'b_2 + b', 'c': 'a + b'}),
    ('operators in the text', {'m': 'x', 'mm': 'm * m', 'mmm': 'mm - m'}),
    ('power suffixes', {'cost_1MW': 'x', 'cost_10MW': 'y', 'cost_11MW': 'cost_1MW + cost_10MW + cost'}),
    ('backslashes in no name', {'a_1': '2 * x', 'g': 'a_1', 'b': 'g * a_1'}),
    ('the same text twice', {'a': 'b + b', 'b': 'c + c', 'c': 'x'}),
    ('a long chain', {'k%02d' % i: 'k%02d + %d' % (i + 1, i) for i in range(40)}),
    ('a long chain from the other end', {'k%02d' % (40 - i): 'k%02d + %d' % (39 - i, i) for i in range(40)}),
    ('a nested group', {'a': 'b + 1', 'b': 'x', 'sub': {'z': 'a + y', 'y': 'b', 'a2': 'z'}}),
]


def expand(name, group, seen=()):
    v = group[name]
    if not isinstance(v, str):
        return repr(v)

    def one(m):
        n = m.group(0)
        if n in group and n != name and n not in seen and not isinstance(group[n], dict):
            return '(%s)' % expand(n, group, seen + (name,))
        return n
    return NAME.sub(one, v)


def tree(text):
    return ast.dump(ast.parse(str(text).strip(), mode='eval'))


def check(ctx, rep):
    rep.part('substitution', _groups, ctx, rep, limit=300)
    rep.part('replacement', _replace, ctx, rep)
    rep.part('shipped groups', _shipped, ctx, rep, limit=300)
    rep.floor('groups folded', 25)


def text_of(ctx, s, t):
    """constant text of an equation term, None if not known"""
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    v = s.state.fields.get((t, ctx.eqn_attr))
    if v is None and t[0] == 'new' and t[1] == 'Equation':
        v = s.engine.new_field(t, ctx.eqn_attr)
        if isinstance(v, tuple):
            v = leaf(v)
    if v is None:
        return None
    v = s.fz(v)
    if is_leaf(v) and tm.is_const(v.leaf):
        return v.leaf[2]
    return None


def name_of(t):
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    if t[0] != 'new':
        return None
    return dict(t[2]).get('name')


def fold(ctx, sp, group):
    s = sp.run('EquationGroup', '__init__', {'group': group}, raise_hint=lambda types, sig: F, objects=('Equation',))
    v = s.state.fields.get((SELF, ctx.store_attr('EquationGroup')))
    return s, (s.fz(v) if v is not None else None)


def entries(s, v):
    """{name: term} of a folded store, None if it is not a finite constant mapping"""
    if v is None or not is_leaf(v):
        return None
    t = v.leaf
    while t[0] in ('dcopy', 'scopy'):
        t = t[1]
    if t[0] != 'dict':
        return None
    its = s.engine._dict_items(t)
    if its is None:
        return None
    out = {}
    for k, x in its:
        if not (is_leaf(k) and tm.is_str_const(k.leaf)):
            return None
        x = s.fz(x)
        out[k.leaf[2]] = x.leaf if is_leaf(x) else None
    return out


def _one(ctx, rep, sp, nm, group, w):
    s, v = fold(ctx, sp, group)
    rep.count('groups folded')
    if s.pc is F:
        rs = ', '.join(sorted({str(r.exc) if hasattr(r, 'exc') else str(r)[:60] for r in s.raises})[:3])
        rep.bad('substitution', w, 'a group is refused (%s): %s [%s]' % (nm, group, rs), key='refused@' + nm)
        return
    if s.pc is not T:
        rep.unk('substitution', w, '%s: whether the group is accepted is not decided (%s)' % (nm, show(s.pc, 150)))
    got = entries(s, v)
    if got is None:
        rep.unk('substitution', w, '%s: entries not decided' % nm)
        return
    _compare(ctx, rep, s, nm, group, got, w)


def _compare(ctx, rep, s, nm, group, got, w):
    for k, src in group.items():
        if k not in got:
            rep.bad('substitution', w, '%s: entry %r is lost' % (nm, k), key='lost@' + nm)
            continue
        t = got[k]
        if isinstance(src, dict):
            continue
        if t is None:
            rep.unk('substitution', w, '%s: entry %r not decided' % (nm, k))
            continue
        txt = text_of(ctx, s, t)
        if txt is None:
            rep.unk('substitution', w, '%s: text of %r not decided (%s)' % (nm, k, show(t, 120)))
            continue
        want = expand(k, group)
        try:
            same = tree(txt) == tree(want)
        except SyntaxError:
            same = False
        if same:
            rep.ok('substitution', w, '%s: %s = %s becomes %s' % (nm, k, src, txt))
        else:
            rep.bad('substitution', w, '%s: in the group %s, entry %r becomes %r instead of %r' % (nm, group, k, txt, want), key='text@' + nm)
        n = name_of(t)
        if n is None:
            if t[0] == 'new':
                rep.bad('name', w, '%s: entry %r has no name' % (nm, k), key='name@none')
        elif tm.is_const(n):
            if n[2] == k:
                rep.ok('name', w, '%s: %s keeps its name' % (nm, k))
            else:
                rep.bad('name', w, '%s: entry %r is named %r' % (nm, k, n[2]), key='name@' + nm)
        else:
            rep.unk('name', w, '%s: name of %r not decided' % (nm, k))


def _groups(ctx, rep):
    sp = Spec(ctx)
    w = where(ctx.prog.func('EquationGroup', '__init__'))
    for nm, g in GROUPS:
        _one(ctx, rep, sp, nm, g, w)
    if ctx.tier != 'quick':
        # every pair of names out of a family, one a reference of the other
        fam = ['a', 'aa', 'ab', 'ba', 'a_b', 'b_a', '_a', 'a_', 'a1', 'a10', 'A', 'np', 'e', 'x1']
        for p in fam:
            use = ' + '.join(q for q in fam if q != 'np') + ' * np.exp(%s)' % p
            if p == 'np':
                continue
            _one(ctx, rep, sp, 'pairs %s' % p, {p: 'u - v', 'zz': use, 'zz2': 'zz - ' + p}, w)
    _nested(ctx, rep, sp, w)


def _nested(ctx, rep, sp, w):
    """nested groups only see their own entries"""
    g = {'a': 'b + 1', 'b': 'x', 'sub': {'z': 'a + y', 'y': 'b', 'a2': 'z'}}
    s, v = fold(ctx, sp, g)
    got = entries(s, v)
    if got is None or got.get('sub') is None:
        rep.unk('nested', w, 'nested group not decided')
        return
    t = got['sub']
    if t[0] != 'new':
        rep.unk('nested', w, 'nested group is %s' % show(t, 100))
        return
    a = dict(t[2]).get('group')
    if a is None or a[0] != 'dict':
        rep.unk('nested', w, 'content of the nested group not decided (%s)' % show(t, 100))
        return
    its = s.engine._dict_items(a)
    given = {k.leaf[2]: x.leaf[2] for k, x in its if is_leaf(k) and is_leaf(x) and tm.is_const(k.leaf) and tm.is_const(x.leaf)} if its else None
    if given is None or len(given) != len(its):
        rep.unk('nested', w, 'content of the nested group not decided')
        return
    if given == g['sub']:
        rep.ok('nested', w, 'a nested group is built from its own entries only')
    else:
        rep.bad('nested', w, 'a nested group %s is built from %s' % (g['sub'], given), key='nested@content')


def _replace(ctx, rep):
    f = ctx.prog.func('Equation', 'replace_equation')
    s = ctx.run('Equation', 'replace_equation')
    w = where(f)
    p = [x for x in f.params() if x != 'self'][0]
    dattr = ctx.def_attr('Equation')
    init = ctx.run('Equation', '__init__')
    # the fields of the constructor by role: text, name, default variables
    pn = [x for x in ctx.prog.func('Equation', '__init__').params() if x != 'self']
    name_fields = [a for (o, a), v in init.state.fields.items() if o == SELF and is_leaf(init.fz(v)) and init.fz(v).leaf == ('param', 'name')]
    for g, t in cases(s.fz(s.ret)):
        if band(g, s.pc) is F:
            continue
        if t[0] != 'new' or t[1] not in ('Equation',):
            rep.unk('replacement', w, 'result is %s' % show(t, 120))
            continue
        a = dict(t[2])
        txt = a.get(pn[0])
        if txt is not None and (peel(txt) == ('param', p)):
            rep.ok('replacement', w, 'the new equation has the new text')
        elif txt is not None and not tm.tmentions(txt, ('param', p)):
            rep.bad('replacement', w, 'the text of the replacement is %s' % show(txt, 120), key='replace@text')
        else:
            rep.unk('replacement', w, 'text is %s' % show(txt, 120) if txt else 'no text')
        n = a.get('name')
        after = {attr for attr in name_fields if (t, attr) in s.state.fields}
        vals = [s.fz(s.state.fields[(t, x)]) for x in after]
        if vals:
            vals = [x.leaf for x in vals if is_leaf(x)]
        elif n is not None:
            vals = [n]
        if not name_fields:
            rep.unk('replacement', w, 'field of the name not found')
        elif any(x == ('attr', SELF, nf) for x in vals for nf in name_fields):
            rep.ok('replacement', w, 'the new equation keeps the name')
        elif not vals or all(tm.is_const(x) for x in vals):
            rep.bad('replacement', w, 'the new equation does not keep the name', key='replace@name')
        else:
            rep.unk('replacement', w, 'name is %s' % show(vals[0], 120))
        d = a.get('default_variables')
        own = ('attr', SELF, dattr)
        later = s.state.fields.get((t, dattr))
        if later is not None:
            lv = s.fz(later)
            d = lv.leaf if is_leaf(lv) else d
        calls = [e for e in s.events if e.kind in ('mcall', 'call', 'inline') and str(e.name).split('.')[-1] == 'set_default_variables']
        if d is None and not calls:
            rep.bad('replacement', w, 'the new equation does not keep the default variables', key='replace@defaults')
        elif d is not None and tm.tmentions(d, own):
            core = d
            while core[0] in ('dcopy', 'scopy'):
                core = core[1]
            if core == own or (core[0] == 'dict' and len(core[1]) == 1 and core[1][0][0] == 'update'):
                rep.ok('replacement', w, 'the new equation keeps the default variables')
            else:
                rep.unk('replacement', w, 'default variables are %s' % show(d, 120))
        elif d is not None and d[0] in ('const', 'dict') and not calls:
            rep.bad('replacement', w, 'the default variables of the new equation are %s' % show(d, 80), key='replace@defaults')
        else:
            rep.unk('replacement', w, 'default variables not decided')


def _shipped(ctx, rep):
    """the shipped groups, folded"""
    sp = Spec(ctx)
    w0 = where(ctx.prog.func('EquationGroup', '__init__'))
    n = 0
    for path, content in data.Library(os.path.join(ctx.repo, 'NRWAL', 'analysis_library')).files:
        path = os.path.relpath(path, ctx.repo)

        def plain(d):
            return all(isinstance(x, (str, int, float)) and not isinstance(x, bool) for x in d.values())

        def walk(nm, d):
            nonlocal n
            for k, x in d.items():
                if isinstance(x, dict):
                    walk('%s %s' % (nm, k), x)
            own = {str(k): x for k, x in d.items() if not isinstance(x, dict)}
            refs = any(m.group(0) in own for k, x in own.items() if isinstance(x, str) for m in NAME.finditer(x))
            if own and plain(own) and refs and n < (12 if ctx.tier == 'quick' else 10 ** 6):
                n += 1
                _one(ctx, rep, sp, nm, own, w0)
        walk(path, content)
