"""Layered lookups: where the value of an arbitrary name comes from."""
from .common import *
from ..mtbdd import atom

K = ('param', '?name')
MISSING = ('missing',)
FLOATS = {'float', 'numpy.float32', 'numpy.float64', 'numpy.double', 'numpy.single'}
HARMLESS = {'flatten', 'ravel', 'copy', 'to_numpy', 'squeeze', '__float__', 'item'}
CASTS = {'float', 'numpy.float32', 'numpy.float64', 'numpy.asarray', 'numpy.array', 'numpy.double', 'numpy.single', 'numpy.asfarray', 'numpy.ravel'}
CHANGING = {'dropna', 'fillna', 'unique', 'drop_duplicates', 'clip', 'round', 'abs', 'sort_values', 'head', 'tail', 'sample', 'ffill', 'bfill', 'cumsum',
            'mean', 'sum', 'max', 'min', 'diff', 'shift', 'interpolate', 'rank', 'mask'}
LOSSY = {'int', 'round', 'abs', 'bool', 'str', 'min', 'max', 'sum', 'numpy.round', 'numpy.abs', 'numpy.nan_to_num', 'numpy.int32', 'numpy.int64',
         'numpy.float16', 'numpy.floor', 'numpy.ceil', 'numpy.mean', 'numpy.maximum', 'numpy.minimum', 'numpy.clip', 'len'}


def value_of(d, key=K):
    """value Node of d[key], MISSING when absent"""
    v = bind(d, lambda t: tm.lookup(t, key, leaf(MISSING)))
    for _ in range(4):
        w = bind(v, lambda t: _resolve(t, key))
        if w is v:
            break
        v = w
    return v


def _resolve(t, key):
    """an item of a copied / updated mapping is an item of one of its parts"""
    pre = []
    x = t
    while x[0] in ('dcopy', 'scopy'):
        pre.append(x[0])
        x = x[1]
    if x[0] == 'index' and x[2] == key:
        c = x[1]
        while c[0] in ('dcopy', 'scopy'):
            c = c[1]
        if c[0] in ('dict', 'upd'):
            r = tm.lookup(c, key, leaf(MISSING))
            if all(y != x for y in leaves(r)):
                return r
    return leaf(t)


def origin(t):
    """(source term, list of conversions) of a value; conversions that change the value are marked '!'"""
    conv = []
    while True:
        h = t[0]
        if h in ('dcopy', 'scopy'):
            t = t[1]
        elif h == 'call' and t[1] in CASTS and len(t[2]) >= 1:
            conv.append(t[1])
            t = t[2][0]
        elif h == 'call' and t[1] in LOSSY and len(t[2]) >= 1:
            conv.append('!' + t[1])
            t = t[2][0]
        elif h == 'mcall' and t[2] in HARMLESS:
            t = t[1]
        elif h == 'mcall' and t[2] in CHANGING:
            conv.append('!' + t[2])
            t = t[1]
        elif h == 'mcall' and t[2] == 'astype' and t[3]:
            ty = t[3][0]
            nm = ty[1] if ty[0] in ('ext', 'class') else (ty[2] if tm.is_str_const(ty) else '?')
            nm = {'float32': 'numpy.float32', 'float64': 'numpy.float64'}.get(nm, nm)
            conv.append('astype ' + nm if nm in FLOATS else '!astype ' + nm if nm in ('int', 'bool', 'numpy.int32', 'numpy.int64', 'numpy.float16',
                                                                                    'str', 'numpy.int16', 'numpy.int8') else '?astype ' + nm)
            t = t[1]
        elif h == 'attr' and t[2] in ('values', 'T'):
            t = t[1]
        elif h == 'neg':
            conv.append('!neg')
            t = t[1]
        elif h == 'bin' and t[1] in ('*', '+', '-', '/') and (tm.is_const(t[3]) or tm.is_const(t[2])):
            conv.append('!' + t[1])
            t = t[2] if tm.is_const(t[3]) else t[3]
        else:
            return t, conv


def given(*lits):
    g = T
    for a, pos in lits:
        x = atom(a)
        g = band(g, x if pos else bnot(x))
    return g


def assume_atoms(v, f):
    """guard fixing every atom for which f answers True / False"""
    g = T
    for a in atoms_of(v):
        r = f(a)
        if r is not None:
            g = band(g, atom(a) if r else bnot(atom(a)))
    return g


def common_atoms(a):
    if a == ('isinst', K, 'str') or a == ('truth', K):
        return True
    if a[0] == 'isinst' and a[1] == K:
        return False
    if a[0] == 'isnone':
        return False
    if a[0] == 'in' and a[1] == K:
        # the name is one of the variables of the equation
        if is_vars(a[2]):
            return True
        if a[2][0] == 'call' and a[2][1] in ('globals', 'locals') or a[2] in BUILTIN_NAMES:
            return False
        if tm.is_const(a[2]) or a[2][0] == 'tuple':
            return False
    if a[0] == 'eq' and K in a[1:] and any(tm.is_const(x) for x in a[1:]):
        return False
    return None


BUILTIN_NAMES = [('call', 'dir', (('ext', x),), ()) for x in ('__builtins__', 'builtins')]


def is_vars(t):
    while t[0] in ('sorted', 'setof', 'dcopy', 'scopy', 'coll') or t[0] == 'call' and t[1] in ('list', 'set', 'frozenset', 'tuple') and len(t[2]) == 1:
        if t[0] == 'coll':
            x = tm.COLL[t]
            if not is_leaf(x):
                return False
            t = x.leaf
        else:
            t = t[2][0] if t[0] == 'call' else t[1]
    return t[0] == 'call' and t[1].endswith('.parse_variables') or t[0] == 'attr' and t[2] == 'variables'


def excluded(guard):
    """contradictory type tests: an array is not a number, a number not an array"""
    try:
        for lits in _cubes(guard):
            ty = {}
            bad = False
            for a, pos in lits.items():
                if a[0] == 'isinst' and pos:
                    ty.setdefault(a[1], set()).add(a[2])
            for k, s in ty.items():
                if 'numpy.ndarray' in s and s & {'int', 'float', 'list', 'tuple', 'str', 'dict'} or 'str' in s and s & {'int', 'float', 'dict'} \
                        or 'dict' in s and s & {'pandas.DataFrame', 'list'}:
                    bad = True
                # results of float() / astype() have a known type
                if k[0] == 'call' and k[1] == 'float' and s - {'float'}:
                    bad = True
            for a, pos in lits.items():
                if a[0] == 'isinst' and not pos and a[2] == 'numpy.ndarray' and a[1][0] == 'mcall' and a[1][2] in ('astype', 'flatten', 'ravel'):
                    bad = True
                if a[0] == 'truth' and pos and a[1][0] == 'call' and a[1][1] == 'numpy.issubdtype':
                    x = a[1][2][0]
                    if x[0] == 'attr' and x[2] == 'dtype' and x[1][0] in ('mcall', 'call') and origin(x[1])[1]:
                        bad = True
            if not bad:
                return False
        return True
    except OverflowError:
        return False


def _cubes(g):
    from ..mtbdd import paths
    return paths(g)


def check_layers(rep, rule, w, v, pc, layers, extra=None, want_absent=True, final_missing=True):
    """layers: [(name, container predicate)] from highest to lowest priority; a container predicate says whether a term denotes that
    container.  In every case in which the name is in a layer and in no higher one the value must come from that layer."""
    f = extra or (lambda a: None)

    def fix(a):
        r = f(a)
        return common_atoms(a) if r is None else r
    g0 = band(assume_atoms(v, fix), T)
    ins = {}
    for a in atoms_of(v):
        if a[0] == 'in' and a[1] == K:
            for nm, pred in layers:
                if pred(a[2]):
                    ins.setdefault(nm, []).append(a)
    ok = True
    for i, (nm, pred) in enumerate(layers):
        if nm not in ins:
            rep.bad(rule, w, 'values of the %s are not used' % nm, key='%s@%s-unused' % (rule, nm))
            ok = False
            continue
        g = g0
        for a in ins[nm]:
            g = band(g, atom(a))
        for hi, _ in layers[:i]:
            for a in ins.get(hi, []):
                g = band(g, bnot(atom(a)))
        ok = _one_layer(rep, rule, w, restrict(v, g), g, nm, pred, pc) and ok
    return ok


def _one_layer(rep, rule, w, v, g, nm, pred, pc):
    res = True
    for gg, t in cases(v):
        if gg is F or excluded(band(gg, T)):
            continue
        src, conv = origin(t)
        cond = '' if gg is T else ' if ' + show(gg, 200)
        if src[0] == 'index' and src[2] == K and pred(src[1]):
            lossy = [c for c in conv if c.startswith('!')]
            if lossy:
                rep.bad(rule, w, 'a value of the %s is changed by %s%s' % (nm, lossy[0][1:], cond), key='%s@%s-changed' % (rule, nm))
                res = False
            elif not _conv_ok(rep, rule, w, src, conv, gg, nm, cond):
                res = False
            continue
        if src == MISSING or src == ('absent',):
            rep.bad(rule, w, 'a value of the %s is dropped%s' % (nm, cond), key='%s@%s-dropped' % (rule, nm))
            res = False
        elif src[0] == 'index' and src[2] == K or tm.is_const(src):
            rep.bad(rule, w, 'a value of the %s is replaced by %s%s' % (nm, show(t, 120), cond), key='%s@%s-replaced' % (rule, nm))
            res = False
        elif src[0] == 'index' and pred(src[1]) and not tm.tmentions(src, K):
            rep.bad(rule, w, 'a value of the %s is taken under another name: %s%s' % (nm, show(t, 120), cond), key='%s@%s-other' % (rule, nm))
            res = False
        elif src[0] in ('param', 'undef'):
            rep.unk(rule, w, '%s: %s%s' % (nm, show(t, 120), cond))
            res = False
        else:
            rep.unk(rule, w, '%s: %s%s' % (nm, show(t, 120), cond))
            res = False
    if res:
        rep.ok(rule, w, 'a name of the %s takes its value from there (%d cases)' % (nm, len(cases(v))))
    return res


def _conv_ok(rep, rule, w, src, conv, gg, nm, cond):
    """conversions to floating point only for integers (arrays of a config: numeric arrays)"""
    for c in conv:
        if c == 'float':
            nonint = bnot(tm.mk_isinst(src, 'int'))
            if band(gg, nonint) is F:
                continue
            rep.unk(rule, w, 'float() of a value of the %s that may not be an integer%s' % (nm, cond))
            return False
        if c in ('astype numpy.float32', 'astype numpy.single', 'numpy.float32'):
            a = [x for x in atoms_of(gg) if x[0] == 'truth' and x[1][0] == 'call' and
                 (x[1][1] == 'numpy.issubdtype' and ('ext', 'numpy.integer') in x[1][2] or x[1][1].endswith('.is_num'))
                 and tm.tmentions(x[1], src)]
            if a and band(gg, *[bnot(atom(x)) for x in a]) is F:
                continue
            kinds = [x for x in atoms_of(gg) if tm.tmentions(x, src) and x[0] == 'truth']
            if not kinds:
                rep.bad(rule, w, 'values of the %s are converted to single precision whatever their type%s' % (nm, cond),
                        key='%s@%s-precision' % (rule, nm))
                return False
            rep.unk(rule, w, 'conversion of a value of the %s to single precision%s' % (nm, cond))
            return False
        if c.startswith('?'):
            rep.unk(rule, w, 'conversion %s of a value of the %s%s' % (c[1:], nm, cond))
            return False
    return True


# ---------------------------------------------------------------------------- quantified guards
def skolem(v, name=K, alias=None):
    """replace every existential by its body: elements of outer collections stay as witnesses, the innermost element ranging over the
    variables of an equation becomes `name` (with the membership recorded)"""
    def one(a):
        if a[0] != 'exists':
            return atom(a)
        chain, body = a[1], a[2]
        g = body
        for it in reversed(chain):
            if it[0] == 'while':
                continue
            el = ('elem',) + tuple(it[:2])
            if is_vars(it[0]):
                g = band(tm.subst(g, {el: name}), tm.mk_in(name, it[0]))
            else:
                coll = it[0]
                c2 = tm.COLL[coll] if coll[0] == 'coll' else None
                if c2 is not None and is_leaf(c2) and is_vars(c2.leaf):
                    g = band(tm.subst(g, {el: name}), tm.mk_in(name, c2.leaf))
        return skolem(g, name, alias)
    memo = {}

    def rec(n):
        if n.var is None:
            return n
        if n in memo:
            return memo[n]
        from ..mtbdd import atom_term, ite
        r = ite(one(atom_term(n.var)), rec(n.hi), rec(n.lo))
        memo[n] = r
        return r
    return rec(v)


def normal(v, m):
    """apply a term-rewriting function to all terms of a guard"""
    def rw(t):
        if not isinstance(t, tuple):
            return t
        t2 = tuple(rw(x) if isinstance(x, tuple) else x for x in t)
        return m(t2)
    memo = {}

    def rec(n):
        if n.var is None:
            return n
        if n in memo:
            return memo[n]
        from ..mtbdd import atom_term, ite
        a = rw(atom_term(n.var))
        r = ite(atom(a), rec(n.hi), rec(n.lo))
        memo[n] = r
        return r
    return rec(v)


def eqn_alias(ctx):
    """private names of an equation's attributes -> public ones; variables of its text -> .variables"""
    d, e = ctx.def_attr('Equation'), ctx.eqn_attr

    def m(t):
        if len(t) == 3 and t[0] == 'attr':
            if t[2] == d and t[1] != SELF:
                return ('attr', t[1], 'default_variables')
            if t[2] == e and t[1] != SELF:
                return ('attr', t[1], 'full')
        if len(t) < 2 or not isinstance(t[0], str):
            return t
        if t[0] == 'call' and t[1].endswith('.parse_variables') and len(t[2]) == 1 and t[2][0][0] == 'attr' and t[2][0][2] == 'full':
            return ('attr', t[2][0][1], 'variables')
        if t[0] in ('sorted', 'setof', 'dcopy', 'scopy') and isinstance(t[1], tuple) and is_vars(t[1]):
            return t[1]
        return t
    return m


FREE = ('param', 'attr', 'index', 'elem', 'const', 'dcopy', 'scopy', 'view', 'in', 'isinst', 'isnone', 'truth', 'eq', 'idx', 'cut')


def free_atom(a):
    """an atom over parameters, attributes and elements only: it can be true or false independently"""
    if isinstance(a, tuple):
        if a[0] == 'in' and a[2][0] == 'call' and a[2][1] == 'dir' and a[2][2] and a[2][2][0][0] == 'ext':
            return free_atom(a[1])
        if a and isinstance(a[0], str) and a[0] not in FREE:
            return False
        if a and a[0] == 'const':
            return True
        return all(free_atom(x) for x in a[1:] if isinstance(x, tuple))
    return True


def _fixed(g):
    return {a for a in atoms_of(g) if restrict(g, atom(a)) is F or restrict(g, bnot(atom(a))) is F}


def equivalent(got, want, given_=T):
    """(True, None) equal; (False, guard) certainly different; (None, guard) not decided"""
    fixed = _fixed(given_)
    d = band(given_, bor(band(got, bnot(want)), band(want, bnot(got))))
    if d is F:
        return True, None
    for cube in _cubes(d):
        g = T
        for a, pos in cube.items():
            g = band(g, atom(a) if pos else bnot(atom(a)))
        if excluded(g):
            continue
        if all(free_atom(a) or a in fixed for a in cube):
            return False, g
    return None, d


def implied(got, want, given_=T):
    """got => want, three-valued"""
    fixed = _fixed(given_)
    d = band(given_, got, bnot(want))
    if d is F:
        return True, None
    for cube in _cubes(d):
        g = T
        for a, pos in cube.items():
            g = band(g, atom(a) if pos else bnot(atom(a)))
        if excluded(g):
            continue
        if all(free_atom(a) or a in fixed for a in cube):
            return False, g
    return None, d
