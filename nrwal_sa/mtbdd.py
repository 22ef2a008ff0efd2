"""Multi-terminal binary decision diagrams over atoms (boolean terms).

A value is a diagram whose leaves are terms; a guard is a diagram whose leaves
are TRUE / FALSE.  Diagrams are hash-consed, hence two values that agree under
every truth assignment of the atoms are the same object."""

TRUE = ('const', 'bool', True)
FALSE = ('const', 'bool', False)


class Node:
    __slots__ = ('var', 'hi', 'lo', 'leaf', '_h', 'nid')

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self


_nodes = {}
_leaves = {}
_atoms = []
_atom_idx = {}
_ite_memo = {}
_res_memo = {}
_count = [0]


def leaf(t):
    n = _leaves.get(t)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo, n.leaf = None, None, None, t
        _count[0] += 1
        n.nid = _count[0]
        _leaves[t] = n
    return n


T = leaf(TRUE)
F = leaf(FALSE)


def _mk(var, hi, lo):
    if hi is lo:
        return hi
    k = (var, hi.nid, lo.nid)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo, n.leaf = var, hi, lo, None
        _count[0] += 1
        n.nid = _count[0]
        _nodes[k] = n
    return n


def atom(t):
    i = _atom_idx.get(t)
    if i is None:
        i = len(_atoms)
        _atoms.append(t)
        _atom_idx[t] = i
    return _mk(i, T, F)


def atom_term(i):
    return _atoms[i]


def is_leaf(n):
    return n.var is None


class Budget(Exception):
    pass


_steps = [0, 1 << 62]       # steps done, steps allowed
RESTRICT_STEPS = 400000


def forget():
    """drop the memo tables (results stay valid, they are only recomputed)"""
    _ite_memo.clear()
    _res_memo.clear()


def ite(g, a, b):
    if g is T:
        return a
    if g is F:
        return b
    if a is b:
        return a
    if a is T and b is F:
        return g
    k = (g.nid, a.nid, b.nid)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    _steps[0] += 1
    if _steps[0] > _steps[1]:
        raise Budget()
    v = g.var
    for x in (a, b):
        if x.var is not None and x.var < v:
            v = x.var

    def co(x, side):
        if x.var == v:
            return x.hi if side else x.lo
        return x
    hi = ite(co(g, 1), co(a, 1), co(b, 1))
    lo = ite(co(g, 0), co(a, 0), co(b, 0))
    r = _mk(v, hi, lo)
    _ite_memo[k] = r
    return r


def band(*gs):
    r = T
    for g in gs:
        r = ite(r, g, F)
    return r


def bor(*gs):
    r = F
    for g in gs:
        r = ite(r, T, g)
    return r


def bnot(g):
    return ite(g, F, T)


def implies_bool(g, h):
    return band(g, bnot(h)) is F


def bind(v, f, _memo=None):
    """apply f : leaf term -> Node on every leaf"""
    if _memo is None:
        _memo = {}
    r = _memo.get(v.nid)
    if r is None:
        if v.var is None:
            r = f(v.leaf)
        else:
            r = ite(_mk(v.var, T, F), bind(v.hi, f, _memo), bind(v.lo, f, _memo))
        _memo[v.nid] = r
    return r


def leaves(v):
    """set of leaf terms"""
    out, seen, todo = [], set(), [v]
    while todo:
        n = todo.pop()
        if n.nid in seen:
            continue
        seen.add(n.nid)
        if n.var is None:
            out.append(n.leaf)
        else:
            todo.append(n.lo)
            todo.append(n.hi)
    return out


def size(v):
    seen, todo = set(), [v]
    while todo:
        n = todo.pop()
        if n.nid in seen:
            continue
        seen.add(n.nid)
        if n.var is not None:
            todo.append(n.lo)
            todo.append(n.hi)
    return len(seen)


def cases(v):
    """list of (guard, leaf term), guards disjoint and exhaustive"""
    out = []
    for lf in leaves(v):
        out.append((bind(v, lambda t, lf=lf: T if t == lf else F), lf))
    return out


def atoms_of(v):
    out, seen, todo = set(), set(), [v]
    while todo:
        n = todo.pop()
        if n.nid in seen:
            continue
        seen.add(n.nid)
        if n.var is not None:
            out.add(n.var)
            todo.append(n.lo)
            todo.append(n.hi)
    return [_atoms[i] for i in sorted(out)]


def restrict(f, c):
    """simplify f under the assumption c (care set); f itself where that costs too much"""
    if c is T or c is F or f.var is None:
        return f
    if _steps[1] != 1 << 62:
        return _restrict(f, c)
    _steps[1] = _steps[0] + RESTRICT_STEPS
    try:
        return _restrict(f, c)
    except Budget:
        return f
    finally:
        _steps[1] = 1 << 62


def _restrict(f, c):
    if c is T or c is F or f.var is None:
        return f
    k = (f.nid, c.nid)
    r = _res_memo.get(k)
    if r is not None:
        return r
    if c.var < f.var:
        r = _restrict(f, bor(c.hi, c.lo))
    elif c.var == f.var:
        if c.hi is F:
            r = _restrict(f.lo, c.lo)
        elif c.lo is F:
            r = _restrict(f.hi, c.hi)
        else:
            r = _mk(f.var, _restrict(f.hi, c.hi), _restrict(f.lo, c.lo))
    else:
        r = _mk(f.var, _restrict(f.hi, c), _restrict(f.lo, c))
    _res_memo[k] = r
    return r


def paths(g, want=TRUE, limit=20000):
    """assignments (dict atom term -> bool) leading to leaf `want`"""
    out = []

    def rec(n, asg):
        if len(out) >= limit:
            return
        if n.var is None:
            if n.leaf == want:
                out.append(dict(asg))
            return
        asg.append((_atoms[n.var], True))
        rec(n.hi, asg)
        asg.pop()
        asg.append((_atoms[n.var], False))
        rec(n.lo, asg)
        asg.pop()
    rec(g, [])
    return out


def lift(f, *vs, cap=96):
    """apply f : leaf terms -> Node over all combinations of leaves.
    Returns None if there would be more than `cap` combinations."""
    n = 1
    for v in vs:
        n *= len(leaves(v))
        if n > cap:
            return None

    def rec(i, acc):
        if i == len(vs):
            return f(*acc)
        return bind(vs[i], lambda t: rec(i + 1, acc + [t]))
    return rec(0, [])


BUDGET = [None]       # nodes a rendering may still visit (None: all)


def _spent():
    if BUDGET[0] is None:
        return False
    BUDGET[0] -= 1
    return BUDGET[0] < 0


def show(n, depth=0):
    if _spent():
        return '...'
    if n.var is None:
        return tshow(n.leaf)
    if n.hi is T and n.lo is F:
        return tshow(_atoms[n.var])
    if n.hi is F and n.lo is T:
        return '!' + tshow(_atoms[n.var])
    return '[%s ? %s : %s]' % (tshow(_atoms[n.var]), show(n.hi), show(n.lo))


def tshow(t):
    if _spent():
        return '...'
    if isinstance(t, Node):
        return show(t)
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    op = t[0]
    if op == 'const':
        return repr(t[2])
    if op == 'param':
        return t[1]
    if op == 'attr':
        return tshow(t[1]) + '.' + t[2]
    if op == 'index':
        return '%s[%s]' % (tshow(t[1]), tshow(t[2]))
    if op == 'slice':
        return '%s[%s:%s]' % (tshow(t[1]), tshow(t[2]), tshow(t[3]))
    if op == 'coll':
        return '#%d' % t[1]
    if op == 'elem':
        return 'elem(%s)' % tshow(t[1]) + ("'" * t[2] if isinstance(t[2], int) else '')
    if op == 'call':
        return '%s(%s)' % (t[1], ', '.join([tshow(a) for a in t[2]] + ['%s=%s' % (k, tshow(v)) for k, v in t[3]]))
    if op == 'rec':
        return 'REC %s(%s)' % (t[1], ', '.join('%s=%s' % (k, tshow(v)) for k, v in t[2]))
    if op == 'new':
        return 'new %s(%s)' % (t[1], ', '.join('%s=%s' % (k, tshow(v)) for k, v in t[2]))
    if op == 'mcall':
        return '%s.%s(%s)' % (tshow(t[1]), t[2], ', '.join([tshow(a) for a in t[3]] + ['%s=%s' % (k, tshow(v)) for k, v in t[4]]))
    if op == 'bin':
        return '(%s %s %s)' % (tshow(t[2]), t[1], tshow(t[3]))
    if op in ('in', 'eq', 'lt', 'is'):
        return '(%s %s %s)' % (tshow(t[1]), {'in': 'in', 'eq': '==', 'lt': '<', 'is': 'is'}[op], tshow(t[2]))
    if op == 'fmt':
        return 'f"%s"' % ''.join(p if isinstance(p, str) else '{%s}' % tshow(p) for p in t[1])
    if op == 'exists':
        return 'EXISTS %s: %s' % (', '.join(tshow(c) for c in t[1]), tshow(t[2]))
    return '%s(%s)' % (op, ', '.join(tshow(x) for x in t[1:]))
