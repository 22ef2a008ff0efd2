"""Terms and their normalising constructors.

Every constructor takes leaf terms and returns a diagram (Node): boolean
operations return guards, others usually a single leaf."""
import os.path
import re

from .mtbdd import (TRUE, FALSE, T, F, leaf, atom, ite, band, bor, bnot, bind,
                    lift, restrict, Node, leaves, atom_term, is_leaf)

NONE = ('const', 'NoneType', None)
UNDEF = ('undef',)


def const(v):
    return ('const', type(v).__name__, v)


def cnode(v):
    return leaf(const(v))


def is_const(t):
    return isinstance(t, tuple) and t and t[0] == 'const'


def is_str_const(t):
    return is_const(t) and t[1] == 'str'


def is_int_const(t):
    return is_const(t) and t[1] in ('int', 'bool')


def is_num_const(t):
    return is_const(t) and t[1] in ('int', 'float')


STR_METHODS = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'format', 'join',
               'title', 'casefold', 'removeprefix', 'removesuffix', 'zfill', 'capitalize'}
STR_LIST_METHODS = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}
PURE_FOLD = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'join', 'split', 'rsplit',
             'partition', 'rpartition', 'startswith', 'endswith', 'count', 'index', 'find', 'rfind',
             'rindex', 'isdigit', 'isidentifier', 'isalpha', 'isalnum', 'isnumeric', 'removeprefix', 'removesuffix',
             'casefold', 'title', 'splitlines'}


def pyval(t):
    """python value of a constant term (nested tuples allowed); raises ValueError"""
    if is_const(t):
        return t[2]
    if t[0] == 'tuple':
        return tuple(pyval(x) for x in t[1])
    if t[0] in ('list', 'set'):
        out = []
        for op in t[1]:
            if op[0] != 'add' or op[1] or op[2] is not T or not is_leaf(op[3]):
                raise ValueError
            out.append(pyval(op[3].leaf))
        return out if t[0] == 'list' else frozenset(out)
    if t[0] == 'arr':
        return [pyval(x) for x in t[1]]
    raise ValueError


def seq_terms(t):
    """element terms of a sequence that is completely known, else None"""
    if t[0] in ('tuple', 'arr'):
        return list(t[1])
    if t[0] == 'list' and all(op[0] == 'add' and not op[1] and op[2] is T and is_leaf(op[3]) for op in t[1]):
        return [op[3].leaf for op in t[1]]
    if t[0] in ('scopy', 'dcopy'):
        return seq_terms(t[1])
    return None


def mk_array(t):
    """array of constants (or of objects of a specialised analysis)"""
    xs = seq_terms(t)
    if not xs or not all(is_const(x) or HINT and HINT(x) for x in xs):
        return None
    if len({is_str_const(x) for x in xs}) > 1:
        return None
    return ('arr', tuple(xs))


def arr_map(f, *ts):
    n = {len(t[1]) for t in ts if t[0] == 'arr'}
    if len(n) != 1:
        return None
    n = n.pop()
    out = []
    for i in range(n):
        r = f(*[t[1][i] if t[0] == 'arr' else t for t in ts])
        if not is_leaf(r):
            return None
        out.append(r.leaf)
    return leaf(('arr', tuple(out)))


def arr_call(name, t):
    """functions of one array"""
    if name in ('numpy.array', 'numpy.asarray'):
        r = mk_array(t)
        return None if r is None else leaf(r)
    if t[0] != 'arr':
        return None
    if name in ('numpy.abs', 'numpy.absolute', 'abs', 'numpy.fabs'):
        return arr_map(lambda x: mk_call('abs', (x,), ()), t)
    try:
        xs = pyval(t)
    except ValueError:
        return None
    if name == 'numpy.argsort':
        return leaf(('arr', tuple(const(i) for i in sorted(range(len(xs)), key=lambda i: xs[i]))))
    if name == 'numpy.sort':
        return leaf(('arr', tuple(const(x) for x in sorted(xs))))
    return None


def from_py(v):
    if isinstance(v, tuple):
        return ('tuple', tuple(from_py(x) for x in v))
    if isinstance(v, list):
        return ('list', tuple(('add', (), T, leaf(from_py(x))) for x in v))
    if isinstance(v, (str, int, float, bool, bytes, type(None))):
        return const(v)
    raise ValueError


def is_stringish(t):
    if is_str_const(t):
        return True
    if t[0] in ('fmt', 'str'):
        return True
    if t[0] == 'mcall' and t[2] in STR_METHODS:
        return True
    if t[0] == 'index' and t[1][0] == 'mcall' and t[1][2] in STR_LIST_METHODS:
        return True
    if t[0] == 'slice':
        return is_stringish(t[1])
    if t[0] == 'call' and t[1] in ('re.sub', 'os.path.join', 'os.path.basename', 'os.path.dirname', 're.escape'):
        return True
    return False


def unwrap(t):
    """strip order / identity wrappers of an iterable"""
    while isinstance(t, tuple) and t and t[0] in ('sorted', 'setof', 'dcopy', 'scopy'):
        t = t[1]
    return t


def unstr(t):
    while isinstance(t, tuple) and t and t[0] == 'str':
        t = t[1]
    return t


# -- value-equality view: copies are equal to their source ---------------------
_vmemo = {}


def val(x):
    """value view: drops copy wrappers everywhere"""
    if isinstance(x, Node):
        k = ('n', x.nid)
        if k not in _vmemo:
            _vmemo[k] = subst(x, {})
        return _vmemo[k]
    r = _vmemo.get(x)
    if r is None:
        r = subst(leaf(x), {})
        r = r.leaf if is_leaf(r) else x
        _vmemo[x] = r
    return r


# -- strings ------------------------------------------------------------------
def mk_fmt(parts):
    out = []

    def add(p):
        if isinstance(p, str):
            if p == '':
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
            return
        p = unstr(p)
        if is_const(p):
            add(str(p[2]))
        elif p[0] == 'fmt':
            for q in p[1]:
                add(q)
        else:
            out.append(p)
    for p in parts:
        add(p)
    if not out:
        return const('')
    if len(out) == 1:
        return const(out[0]) if isinstance(out[0], str) else mk_str(out[0])
    return ('fmt', tuple(out))


def mk_str(t):
    if is_str_const(t):
        return t
    if is_const(t):
        return const(str(t[2]))
    if t[0] in ('fmt', 'str') or is_stringish(t):
        return t
    u = t
    while u[0] in ('dcopy', 'scopy'):
        u = u[1]
    if u[0] == 'val' and u[1] in VAL_TEXT:
        return const(VAL_TEXT[u[1]])
    return ('str', t)


_FMT_RE = re.compile(r'\{\{|\}\}|\{([^{}:!]*)(![rsa])?(:[^{}]*)?\}')


def fmt_method(s, args, kw):
    """str.format on a constant template; None if not understood"""
    parts, pos, auto = [], 0, 0
    for m in _FMT_RE.finditer(s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) == '{{':
            parts.append('{')
            continue
        if m.group(0) == '}}':
            parts.append('}')
            continue
        f = m.group(1)
        if m.group(3) or m.group(2) in ('!r', '!a'):
            return None
        if f == '':
            if auto >= len(args):
                return None
            parts.append(args[auto])
            auto += 1
        elif f.isdigit():
            if int(f) >= len(args):
                return None
            parts.append(args[int(f)])
        elif f in kw:
            parts.append(kw[f])
        else:
            return None
    parts.append(s[pos:])
    if '{' in s[pos:] or '}' in s[pos:]:
        return None
    return mk_fmt(parts)


# -- booleans -----------------------------------------------------------------
NONE_OR_TRUTHY = {'re.search', 're.match', 're.fullmatch'}
ALWAYS_TRUE_HEADS = {'rematch', 'new', 'class', 'func', 'ext', 'lam', 'bound'}


def mk_truth(t):
    h = t[0]
    if h == 'coll':
        return bind(COLL[t], mk_truth)
    if h == 'const':
        return T if t[2] else F
    if h == 'tuple':
        return T if t[1] else F
    if h == 'fmt':
        if any(isinstance(p, str) for p in t[1]):
            return T
    if h in ALWAYS_TRUE_HEADS:
        return T
    if h in ('sorted', 'setof', 'dcopy', 'scopy', 'str') and h != 'str':
        return mk_truth(t[1])
    if h == 'view':
        return mk_truth(t[2])
    if h in ('list', 'set', 'dict', 'upd'):
        g = F
        if h == 'upd':
            g = mk_truth(t[1])
        ops = t[2] if h == 'upd' else t[1]
        for op in ops:
            if op[0] in ('add', 'set'):
                g = bor(g, mk_exists(op[1], op[2]))
            elif op[0] == 'upd':
                g = bor(g, mk_exists(op[1], band(op[2], truth(op[3]))))
            else:
                return atom(('truth', t))
        return g
    if h == 'call' and t[1] == 'len':
        return mk_truth(t[2][0])
    if h == 'call' and t[1] in ('bool', 'any') and len(t[2]) == 1:
        return mk_truth(t[2][0])
    if h == 'neg':
        return mk_truth(t[1])
    if h == 'call' and t[1] in NONE_OR_TRUTHY and len(t[2]) == 2 and not t[3] and is_str_const(t[2][0]) and is_str_const(t[2][1]):
        try:
            return T if getattr(re, t[1][3:])(t[2][0][2], t[2][1][2]) else F
        except re.error:
            pass
    return atom(('truth', t))


def truth(v):
    return bind(v, mk_truth)


def as_guard(v):
    return truth(v)


def mk_isnone(t):
    if t == NONE:
        return T
    if t == UNDEF:
        return F
    h = t[0]
    if h == 'coll':
        return bind(COLL[t], mk_isnone)
    if h in ('const', 'tuple', 'list', 'set', 'dict', 'fmt', 'str', 'new', 'class', 'func', 'ext', 'lam', 'upd',
             'sorted', 'setof', 'ref', 'bin', 'view', 'rematch'):
        return F
    if h == 'val':
        return T if t[1] == 'NoneType' else F
    if h in ('dcopy', 'scopy'):
        return mk_isnone(t[1])
    if HINT and HINT(t):
        return F
    if h == 'call' and t[1] in NONE_OR_TRUTHY:
        return bnot(atom(('truth', t)))
    if h == 'call' and t[1] in ('len', 'float', 'int', 'abs', 'bool', 'str', 'os.path.join', 'os.path.splitext',
                                'os.path.basename', 'os.path.dirname', 'os.path.abspath'):
        return F
    if is_stringish(t):
        return F
    if h == 'mcall' and t[1][0] == 'call' and t[1][1] in NONE_OR_TRUTHY:
        return F
    return atom(('isnone', t))


def mk_eq(a, b):
    if a == b:
        return T
    if is_const(a) and is_const(b):
        return T if (a[2] == b[2]) else F
    if a == NONE:
        return mk_isnone(b)
    if b == NONE:
        return mk_isnone(a)
    if a[0] == 'tuple' and b[0] == 'tuple':
        if len(a[1]) != len(b[1]):
            return F
        return band(*[mk_eq(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == 'class' and b[0] == 'class':
        return F
    if a[0] == 'ext' and b[0] == 'ext' and a[1] in VAL_BASES and b[1] in VAL_BASES:
        return F
    for x, y in ((a, b), (b, a)):
        if x[0] == 'val' and is_const(y):
            if x[1] not in VAL_NUMERIC and x[1] not in ('numpy.ndarray', 'pandas.Series', 'pandas.DataFrame', 'object') and x[1] != y[1]:
                return F
            if x[1] in VAL_NUMERIC and y[1] == 'str':
                return F
    if is_const(a) and not is_const(b):
        a, b = b, a
    if a[0] in ('dcopy', 'scopy'):
        a = a[1]
    if b[0] in ('dcopy', 'scopy'):
        b = b[1]
    if is_const(b):
        if b[1] == 'str':
            a = unstr(a)
            if a[0] == 'tuple' or a[0] in ('list', 'dict', 'new'):
                return F
        if a[0] == 'call' and a[1] == 'len' and is_int_const(b):
            if b[2] == 0:
                return bnot(mk_truth(a[2][0]))
            if b[2] < 0:
                return F
        # os.path.splitext(x)[1] == '.ext'
        if (a[0] == 'index' and a[1][0] == 'call' and a[1][1] == 'os.path.splitext'
                and a[2] == const(1) and is_str_const(b) and b[2].startswith('.')):
            return mk_endswith(a[1][2][0], b)
        if a[0] == 'fmt':
            # constant prefix / suffix mismatch
            s = b[2]
            if isinstance(s, str):
                p, q = a[1][0], a[1][-1]
                if isinstance(p, str) and not s.startswith(p):
                    return F
                if isinstance(q, str) and not s.endswith(q):
                    return F
            else:
                return F
        # last / first character comparison
        if is_str_const(b) and len(b[2]) == 1:
            if a[0] == 'index' and a[2] == const(0):
                return mk_startswith(a[1], b)
            if a[0] == 'index' and a[2] == const(-1):
                return mk_endswith(a[1], b)
        if is_str_const(b) and a[0] == 'slice' and a[2] == NONE and a[4] == NONE and is_int_const(a[3]) and a[3][2] == len(b[2]):
            return mk_startswith(a[1], b)
        if is_str_const(b) and a[0] == 'slice' and a[3] == NONE and a[4] == NONE and is_int_const(a[2]) and a[2][2] == -len(b[2]):
            return mk_endswith(a[1], b)
        if is_str_const(b) and b[2] == '' and is_stringish(a):
            return bnot(mk_truth(a))
        if a[0] == 'call' and a[1] == 'bool' and b[1] == 'bool':
            g = mk_truth(a[2][0])
            return g if b[2] else bnot(g)
    else:
        # a == b symmetric: order by repr for canonicity
        if _key(b) < _key(a):
            a, b = b, a
    return atom(('eq', a, b))


_keys = {}


def _key(t):
    k = _keys.get(t)
    if k is None:
        k = repr_term(t)
        _keys[t] = k
    return k


def repr_term(t):
    if isinstance(t, Node):
        return 'N%d' % t.nid
    if isinstance(t, tuple):
        return '(' + ','.join(repr_term(x) for x in t) + ')'
    return repr(t)


def _is_len(t):
    return t[0] == 'call' and t[1] == 'len'


def mk_lt(a, b):
    """a < b"""
    if is_const(a) and is_const(b):
        try:
            return T if a[2] < b[2] else F
        except TypeError:
            return F
    if _is_len(a) and is_int_const(b):
        k = b[2]
        if k <= 0:
            return F
        if k == 1:
            return bnot(mk_truth(a[2][0]))
        return atom(('lt', a, const(k)))
    if _is_len(b) and is_int_const(a):
        # k < len  <=> not len < k+1
        return bnot(mk_lt(b, const(a[2] + 1)))
    return atom(('lt', a, b))


def mk_le(a, b):
    return bnot(mk_lt(b, a))


def mk_startswith(s, p):
    s = unstr(s)
    if p[0] == 'tuple':
        return bor(*[mk_startswith(s, x) for x in p[1]])
    if is_str_const(s) and is_str_const(p):
        return T if s[2].startswith(p[2]) else F
    if s[0] == 'fmt' and is_str_const(p) and isinstance(s[1][0], str) and len(s[1][0]) >= len(p[2]):
        return T if s[1][0].startswith(p[2]) else F
    return atom(('startswith', s, p))


def mk_endswith(s, p):
    s = unstr(s)
    if p[0] == 'tuple':
        return bor(*[mk_endswith(s, x) for x in p[1]])
    if is_str_const(s) and is_str_const(p):
        return T if s[2].endswith(p[2]) else F
    if s[0] == 'fmt' and is_str_const(p) and isinstance(s[1][-1], str) and len(s[1][-1]) >= len(p[2]):
        return T if s[1][-1].endswith(p[2]) else F
    # a joined path ends like its last part
    if s[0] == 'call' and s[1] == 'os.path.join' and s[2]:
        return mk_endswith(s[2][-1], p)
    return atom(('endswith', s, p))


TYPE_EQUIV = {'np.ndarray': 'numpy.ndarray'}


def mk_isinst(t, tn):
    h = t[0]
    if h == 'coll':
        return bind(COLL[t], lambda x: mk_isinst(x, tn))
    if h == 'const':
        v = t[2]
        table = {'str': str, 'int': int, 'float': float, 'bool': bool, 'NoneType': type(None), 'dict': dict,
                 'list': list, 'tuple': tuple, 'bytes': bytes}
        if tn in table:
            return T if isinstance(v, table[tn]) else F
        return F
    if h == 'val':
        return T if val_isinst(t[1], tn) else F
    if h == 'call' and t[1] in ('dict', 'list', 'tuple') and len(t[2]) == 1 and t[2][0][0] == 'val':
        return T if val_isinst(t[1], tn) else F
    if h in ('fmt', 'str') or is_stringish(t):
        return T if tn == 'str' else F
    if h == 'tuple':
        return T if tn == 'tuple' else F
    if h in ('list', 'sorted'):
        return T if tn == 'list' else F
    if h == 'dict':
        return T if tn == 'dict' else F
    if h in ('dcopy', 'scopy'):
        return mk_isinst(t[1], tn)
    if h == 'call' and t[1] in ('float', 'int'):
        if tn in ('float', 'int', 'str', 'dict', 'list', 'tuple'):
            return T if tn == t[1] else F
    if h == 'new':
        bases = CLASS_BASES.get(t[1], {t[1]})
        if tn in bases:
            return T
        if tn in CLASS_BASES or tn in ('str', 'int', 'float', 'dict', 'list', 'tuple', 'numpy.ndarray', 'pandas.DataFrame'):
            return F
    c = HINT(t) if HINT else None
    if c and t[0] != 'new':
        return mk_isinst(('new', c, ()), tn)
    return atom(('isinst', t, tn))


_ABC = 'collections.abc.'
_SEQ = {_ABC + x for x in ('Sequence', 'Collection', 'Iterable', 'Sized', 'Container', 'Reversible')}
_NPG = {'numpy.generic', 'numpy.number', 'numbers.Number', 'numbers.Real', 'numbers.Complex'}
# terms ('val', type, label): an arbitrary value of exactly this type
VAL_BASES = {
    'list': {'list'} | _SEQ | {_ABC + 'MutableSequence'},
    'tuple': {'tuple'} | _SEQ,
    'range': {'range'} | _SEQ,
    'bytes': {'bytes'} | _SEQ,
    'str': {'str'} | _SEQ,
    'dict': {'dict'} | {_ABC + x for x in ('Mapping', 'MutableMapping', 'Collection', 'Iterable', 'Sized', 'Container')},
    'set': {'set'} | {_ABC + x for x in ('Set', 'MutableSet', 'Collection', 'Iterable', 'Sized', 'Container')},
    'frozenset': {'frozenset'} | {_ABC + x for x in ('Set', 'Collection', 'Iterable', 'Sized', 'Container')},
    'NoneType': {'NoneType'},
    'int': {'int', 'numbers.Number', 'numbers.Real', 'numbers.Complex', 'numbers.Integral', 'numbers.Rational'},
    'float': {'float', 'numbers.Number', 'numbers.Real', 'numbers.Complex'},
    'datetime.date': {'datetime.date'},
    'datetime.datetime': {'datetime.date', 'datetime.datetime'},
    'numpy.ndarray': {'numpy.ndarray'} | {_ABC + x for x in ('Collection', 'Iterable', 'Sized', 'Container')},
    'numpy.float32': {'numpy.float32', 'numpy.floating', 'numpy.inexact'} | _NPG,
    'numpy.int64': {'numpy.int64', 'numpy.integer', 'numpy.signedinteger', 'numbers.Integral', 'numbers.Rational'} | _NPG,
    'numpy.str_': {'numpy.str_', 'str', 'numpy.generic', 'numpy.character', 'numpy.flexible'} | _SEQ,
    'numpy.datetime64': {'numpy.datetime64', 'numpy.generic'},
    'pandas.Series': {'pandas.Series'} | {_ABC + x for x in ('Collection', 'Iterable', 'Sized', 'Container')},
    'pandas.DataFrame': {'pandas.DataFrame'} | {_ABC + x for x in ('Collection', 'Iterable', 'Sized', 'Container')},
    'function': {'function', 'types.FunctionType', _ABC + 'Callable'},
    'object': set(),
}
VAL_NUMERIC = {'int', 'float', 'numpy.float32', 'numpy.int64'}
VAL_PY = {'list': list, 'tuple': tuple, 'range': range, 'bytes': bytes, 'str': str, 'dict': dict, 'set': set, 'frozenset': frozenset,
          'NoneType': type(None), 'int': int, 'float': float, 'object': object}
VAL_ALIAS = {'typing.' + x.split('.')[-1]: x for v in VAL_BASES.values() for x in v if x.startswith(_ABC)}


VAL_TEXT = {}        # type -> text of a representative, while an analysis is about representatives
VAL_TEXTS = {'list': '[1]', 'tuple': '(1,)', 'range': 'range(0, 3)', 'bytes': "b'1'", 'dict': '{}', 'set': '{1}', 'frozenset': 'frozenset({1})',
             'datetime.date': '2020-01-02', 'datetime.datetime': '2020-01-02 03:04:05', 'numpy.ndarray': '[1. 2.]', 'pandas.Series': '0    1.0', 'numpy.str_': 'x', 'numpy.datetime64': '2020-01-02',
             'pandas.DataFrame': 'A\n0  1', 'function': '<function f>', 'object': '<object object>'}


def val_isinst(ty, tn):
    tn = VAL_ALIAS.get(tn, tn)
    if tn == 'object':
        return True
    return tn in VAL_BASES[ty]


HINT = None          # optional: class name of a term (assumption of a specialised analysis)
CUTS = {}        # loop chain -> guard under which an iteration leaves the loop
COLL = {}            # name -> defining diagram


def mk_coll(v):
    """name a (large or gated) collection value"""
    if is_leaf(v) and v.leaf[0] == 'coll':
        return v.leaf
    n = ('coll', v.nid)
    COLL[n] = v
    return n


def unfold(t):
    return COLL[t] if t[0] == 'coll' else leaf(t)


def is_elem_of(a, b):
    return a[0] == 'elem' and unwrap(a[1]) == unwrap(b)


CLASS_BASES = {}     # class name -> set of its base names (incl. itself)


def mk_in(a, b):
    h = b[0]
    if is_elem_of(a, b):
        return T
    if h == 'coll':
        return bind(COLL[b], lambda x: mk_in(a, x))
    if h == 'upd' and is_elem_of(a, b[1]) and all(op[0] in ('set', 'upd', 'havoc') for op in b[2]) \
            and all(op[4] is not None and op[4][1] for op in b[2] if op[0] == 'havoc'):
        return T
    if h == 'tuple':
        return bor(*[mk_eq(a, x) for x in b[1]])
    if h == 'call' and b[1] == 'dir' and is_str_const(a) and b[2] == (('ext', '__builtins__'),):
        import builtins
        if a[2] not in dir(builtins) and a[2] not in dir({}):
            return F
    if is_const(b):
        if is_const(a) and is_str_const(b) and is_str_const(a):
            return T if a[2] in b[2] else F
        if is_str_const(b):
            return atom(('in', a, b))
        return F
    if h in ('sorted', 'setof', 'dcopy', 'scopy'):
        return mk_in(a, b[1])
    if h == 'str':
        return mk_in(a, b[1])
    if h == 'view':
        if b[1] == 'keys':
            return mk_in(a, b[2])
        return atom(('in', a, b))
    if h in ('list', 'set'):
        g = F
        for op in b[1]:
            if op[0] != 'add':
                return atom(('in', a, b))
            g = bor(g, _op_match(op[1], op[2], op[3], a))
        return g
    if h in ('dict', 'upd'):
        g = mk_in(a, b[1]) if h == 'upd' else F
        ops = b[2] if h == 'upd' else b[1]
        for op in ops:
            if op[0] == 'set':
                g = bor(g, _op_match(op[1], op[2], op[3], a))
            elif op[0] == 'upd':
                c = bind(op[3], lambda t: mk_in(a, t))
                g = bor(g, mk_exists(op[1], band(op[2], c)))
            elif op[0] == 'del':
                g = band(g, bnot(_op_match(op[1], op[2], op[3], a)))
            elif op[0] == 'clear':
                g = band(g, bnot(mk_exists(op[1], op[2])))
            elif op[0] == 'add':
                g = bor(g, _op_match(op[1], op[2], op[3], a))
            elif op[0] == 'havoc' and op[4] is not None and (op[4][1] or op[4][0] == a):
                pass
            elif op[0] == 'havoc' and is_leaf(op[3]) and op[2] is T and not op[1]:
                g = atom(('in', a, op[3].leaf))
            else:
                return atom(('in', a, b))
        return g
    if h == 'fmt' and is_str_const(a):
        if any(isinstance(p, str) and a[2] in p for p in b[1]):
            return T
    return atom(('in', a, b))


def _op_match(chain, guard, keyv, a):
    """guard under which an op with this chain produces key `a`"""
    if not chain:
        return band(guard, bind(keyv, lambda k: mk_eq(k, a)))
    if len(chain) == 1 and is_leaf(keyv) and keyv.leaf == ('elem',) + tuple(chain[0][:2]):
        el = keyv.leaf
        g = subst(guard, {el: a})
        return band(mk_in(a, chain[0][0]), g)
    # inner-most loop variable is the key
    last = ('elem',) + tuple(chain[-1][:2])
    if is_leaf(keyv) and keyv.leaf == last:
        g = band(subst(guard, {last: a}), mk_in(a, chain[-1][0]))
        return mk_exists(chain[:-1], g)
    return mk_exists(chain, band(guard, bind(keyv, lambda k: mk_eq(k, a))))


def mk_exists(chain, guard):
    if not chain:
        return guard
    if guard is F:
        return F
    chain = list(chain)
    # drop quantifiers the guard does not mention, keep non-emptiness
    out = guard
    while chain:
        it = chain[-1]
        if it[0] == 'while':
            break
        el = ('elem',) + tuple(it[:2])
        if mentions(out, it):
            break
        out = band(out, mk_truth(it[0])) if it[0] != 'while' else out
        chain.pop()
    if not chain:
        return out
    if out is F:
        return F
    # distribute an existential over a disjunction free of the variable is left alone
    # in(x, X) for  exists e in X: e == x
    if len(chain) == 1 and chain[0][0] != 'while':
        el = ('elem',) + tuple(chain[0][:2])
        if out.var is not None and out.hi is T and out.lo is F:
            a = atom_term(out.var)
            if a[0] == 'eq':
                if a[1] == el and not tmentions(a[2], el):
                    return mk_in(a[2], chain[0][0])
                if a[2] == el and not tmentions(a[1], el):
                    return mk_in(a[1], chain[0][0])
            if a == ('truth', el):
                return atom(('truth', chain[0][0]))
    return atom(('exists', tuple(chain), out))


_ment = {}


def tmentions(t, el):
    if t == el:
        return True
    if isinstance(t, Node):
        k = (t.nid, el)
        r = _ment.get(k)
        if r is None:
            _ment[k] = False
            r = any(tmentions(a, el) for a in [atom_term(i) for i in _vars(t)]) or any(tmentions(x, el) for x in leaves(t))
            _ment[k] = r
        return r
    if isinstance(t, tuple):
        if t and t[0] == 'coll':
            return tmentions(COLL[t], el)
        return any(tmentions(x, el) for x in t)
    return False


def _vars(v):
    out, seen, todo = set(), set(), [v]
    while todo:
        n = todo.pop()
        if n.nid in seen:
            continue
        seen.add(n.nid)
        if n.var is not None:
            out.add(n.var)
            todo.append(n.lo)
            todo.append(n.hi)
    return out


def mentions(v, chain_item):
    if chain_item[0] == 'while':
        return True
    it, lvl = chain_item[0], chain_item[1]
    return tmentions(v, ('elem', it, lvl)) or tmentions(v, ('idx', it, lvl))


# -- other constructors ---------------------------------------------------------
def mk_attr(t, name):
    if t[0] in ('dcopy',):
        return leaf(('dcopy', ('attr', t[1], name)))
    if t[0] == 'ext':
        return leaf(('ext', t[1] + '.' + name))
    return leaf(('attr', t, name))


def lookup(d, key, default):
    """value of d[key] with `default` (Node) when absent"""
    h = d[0]
    if h in ('dcopy', 'scopy'):
        return lookup(d[1], key, default)
    if h == 'coll':
        if is_elem_of(key, d):
            return leaf(('index', d, key))
        return bind(COLL[d], lambda x: lookup(x, key, default))
    if h in ('dict', 'upd'):
        res = default if h == 'dict' else lookup(d[1], key, default)
        ops = d[1] if h == 'dict' else d[2]
        for op in ops:
            k = op[0]
            if k == 'set':
                chain, guard, kv, vv = op[1:5]
                if not chain:
                    res = ite(band(guard, bind(kv, lambda x: mk_eq(x, key))), vv, res)
                elif len(chain) == 1 and is_leaf(kv) and kv.leaf == ('elem',) + tuple(chain[0][:2]):
                    g = band(subst(guard, {kv.leaf: key}), mk_in(key, chain[0][0]))
                    res = ite(g, subst(vv, {kv.leaf: key}), res)
                else:
                    g = mk_exists(chain, band(guard, bind(kv, lambda x: mk_eq(x, key))))
                    res = ite(g, bind(vv, lambda x: leaf(('first', chain, guard, x)) if any(mentions(x, c) for c in chain) else leaf(x)), res)
            elif k == 'upd':
                chain, guard, xv = op[1:4]
                new = bind(xv, lambda x: ite(mk_in(key, x), lookup(x, key, leaf(('index', x, key))), leaf(('absent',))))
                g = band(guard, bind(xv, lambda x: mk_in(key, x)))
                if chain:
                    g = mk_exists(chain, g)
                res = ite(g, bind(new, lambda x: leaf(x)), res)
            elif k == 'del':
                chain, guard, kv = op[1:4]
                res = ite(_op_match(chain, guard, kv, key), default, res)
            elif k == 'clear':
                res = ite(mk_exists(op[1], op[2]), default, res)
            elif k == 'havoc' and op[4] is not None and op[4][0] == key:
                pass
            elif k == 'havoc' and is_leaf(op[3]) and op[2] is T and not op[1]:
                # content at the head of a loop that changes it: one unknown mapping
                res = ite(atom(('in', key, op[3].leaf)), leaf(('index', op[3].leaf, key)), default)
            else:
                res = ite(mk_exists(op[1], op[2]), leaf(('index', d, key)), res)
        return res
    return ite(mk_in(key, d), leaf(('index', d, key)), default)


def mk_index(t, k):
    h = t[0]
    if h == 'coll':
        if k[0] in ('elem', 'idx') and unwrap(k[1]) == t:
            return leaf(('index', t, k)) if k[0] == 'elem' else leaf(('elem', t, k[2]))
        return bind(COLL[t], lambda x: mk_index(x, k))
    if h == 'arr' or h in ('list', 'tuple') and k[0] == 'arr':
        xs = seq_terms(t)
        if is_int_const(k) and -len(xs) <= k[2] < len(xs):
            return leaf(xs[k[2]])
        ks = seq_terms(k) if k[0] in ('arr', 'list') else None
        if h == 'arr' and ks is not None and all(is_int_const(x) and x[1] != 'bool' and -len(xs) <= x[2] < len(xs) for x in ks):
            return leaf(('arr', tuple(xs[x[2]] for x in ks)))
        if h == 'arr' and ks is not None and len(ks) == len(xs) and all(is_const(x) and x[1] == 'bool' for x in ks):
            return leaf(('arr', tuple(x for x, b in zip(xs, ks) if b[2])))
    if h == 'tuple' and is_int_const(k):
        n = k[2]
        if -len(t[1]) <= n < len(t[1]):
            return leaf(t[1][n])
    if h == 'rematch':
        return mk_mcall(t, 'group', (k,), ())
    if h == 'const' and is_const(k):
        try:
            return leaf(from_py(t[2][k[2]]))
        except Exception:
            pass
    if h in ('list',):
        if is_int_const(k) and all(op[0] == 'add' and not op[1] and op[2] is T for op in t[1]):
            n = k[2]
            if -len(t[1]) <= n < len(t[1]):
                return t[1][n][3]
    if h in ('dict', 'upd'):
        r = lookup(t, k, leaf(('index', ('missing',), k)))
        if ('index', ('missing',), k) not in leaves(r):
            return r
        # keep it symbolic but still informative
        return bind(r, lambda x: leaf(('index', val(t), k)) if x == ('index', ('missing',), k) else leaf(x))
    if h in ('dcopy', 'scopy') and h == 'scopy':
        return mk_index(t[1], k)
    if h == 'dcopy':
        return leaf(('dcopy', ('index', t[1], k)))
    if k[0] == 'idx' and unwrap(t) == k[1]:
        return leaf(('elem', k[1], k[2]))
    if h == 'view' and t[1] == 'keys':
        t = t[2]
    return leaf(('index', t, k))


def mk_slice(t, lo, hi, step):
    if is_const(t) and all(is_const(x) for x in (lo, hi, step)):
        try:
            return leaf(from_py(t[2][lo[2]:hi[2]:step[2]]))
        except Exception:
            pass
    if t[0] in ('list', 'tuple', 'arr') and all(is_const(x) for x in (lo, hi, step)):
        if t[0] in ('tuple', 'arr'):
            return leaf((t[0], t[1][lo[2]:hi[2]:step[2]]))
        if all(op[0] == 'add' and not op[1] and op[2] is T for op in t[1]):
            return leaf(('list', t[1][lo[2]:hi[2]:step[2]]))
    if lo == const(0):
        lo = NONE
    if step == const(1):
        step = NONE
    return leaf(('slice', t, lo, hi, step))


ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
         '**': lambda a, b: a ** b, '%': lambda a, b: a % b, '//': lambda a, b: a // b}


def is_guard(v):
    return all(x in (TRUE, FALSE) for x in leaves(v))


def mk_bin(op, a, b):
    if 'arr' in (a[0], b[0]) and op in ARITH and all(x[0] == 'arr' or is_const(x) for x in (a, b)):
        r = arr_map(lambda x, y: mk_bin(op, x, y), a, b)
        if r is not None:
            return r
    if is_const(a) and is_const(b) and op in ARITH:
        try:
            if not (op == '%' and is_str_const(a)):
                return leaf(from_py(ARITH[op](a[2], b[2])))
        except Exception:
            pass
    if op == '+':
        if is_stringish(a) or is_stringish(b):
            return leaf(mk_fmt([a, b]))
        if a[0] == 'tuple' and b[0] == 'tuple':
            return leaf(('tuple', a[1] + b[1]))
        if a[0] in ('list',) and b[0] in ('list',):
            return leaf(('list', a[1] + b[1]))
        if a[0] == 'list' or b[0] == 'list' or a[0] == 'view' or b[0] == 'view':
            return leaf(('list', list_ops(a, ()) + list_ops(b, ())))
    if op == '%' and is_str_const(a):
        args = list(b[1]) if b[0] == 'tuple' else [b]
        bits = re.split(r'(%%|%[sd])', a[2])
        parts, i = [], 0
        ok = '%' not in ''.join(x for x in bits if not re.fullmatch(r'%%|%[sd]', x))
        for x in bits:
            if x == '%%':
                parts.append('%')
            elif x in ('%s', '%d'):
                if i >= len(args):
                    ok = False
                    break
                parts.append(args[i])
                i += 1
            else:
                parts.append(x)
        if ok and i == len(args):
            return leaf(mk_fmt(parts))
    if op in ('|', '&'):
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            ga, gb = mk_truth(a), mk_truth(b)
            return bor(ga, gb) if op == '|' else band(ga, gb)
        if op == '|' and a[0] in ('dict', 'upd', 'dcopy', 'scopy') or op == '|' and b[0] in ('dict', 'upd', 'dcopy', 'scopy'):
            return leaf(('dict', dict_ops(a) + dict_ops(b)))
        if op == '|' and (a[0] in ('setof', 'set') or b[0] in ('setof', 'set')):
            return leaf(('setof', ('list', list_ops(a, ()) + list_ops(b, ()))))
    if op == '-' and (a[0] in ('setof', 'set') or (a[0] == 'view' and a[1] == 'keys')):
        # set difference
        ops = []
        for o in list_ops(a, ()):
            if o[0] == 'add':
                ops.append(('add', o[1], band(o[2], bnot(bind(o[3], lambda x: mk_in(x, b)))), o[3]))
            else:
                ops.append(o)
        return leaf(('setof', ('list', tuple(ops))))
    if op == '&' and a[0] in ('setof', 'set'):
        ops = []
        for o in list_ops(a, ()):
            ops.append(('add', o[1], band(o[2], bind(o[3], lambda x: mk_in(x, b))), o[3]))
        return leaf(('setof', ('list', tuple(ops))))
    return leaf(('bin', op, a, b))


def dict_ops(t):
    if t[0] == 'dict':
        return t[1]
    if t[0] == 'upd':
        return dict_ops(t[1]) + t[2]
    if t == NONE:
        return ()
    return (('upd', (), T, leaf(t)),)


def iter_of(t):
    """(base iterable term for quantification, function level -> element value Node)"""
    t = unwrap(t)
    h = t[0]
    if h == 'view':
        b = unwrap(t[2])
        if t[1] == 'keys':
            return b, lambda l: leaf(('elem', b, l))
        if t[1] == 'values':
            return b, lambda l: mk_index(b, ('elem', b, l))
        return b, lambda l: bind(mk_index(b, ('elem', b, l)), lambda v: leaf(('tuple', (('elem', b, l), v))))
    if h == 'call' and t[1] == 'enumerate' and len(t[2]) == 1:
        b, f = iter_of(t[2][0])
        return b, lambda l: bind(f(l), lambda v: leaf(('tuple', (('idx', b, l), v))))
    if h == 'call' and t[1] == 'zip' and len(t[2]) >= 1:
        subs = t[2]
        b, f = iter_of(subs[0])

        def g(l):
            vs = [f(l)] + [mk_index(unwrap(s), ('idx', b, l)) for s in subs[1:]]
            return lift(lambda *xs: leaf(('tuple', tuple(xs))), *vs)
        return b, g
    if h == 'call' and t[1] == 'range' and len(t[2]) == 1 and _is_len(t[2][0]):
        b = unwrap(t[2][0][2][0])
        return b, lambda l: leaf(('idx', b, l))
    if h == 'call' and t[1] == 'map' and len(t[2]) == 2 and t[2][0][0] == 'ext' and t[2][0][1] == 'str':
        b, f = iter_of(t[2][1])
        return b, lambda l: bind(f(l), lambda v: leaf(mk_str(v)))
    return t, lambda l: leaf(('elem', t, l))


def list_ops(t, active):
    """ops of a list that has the elements of iterable term t"""
    if t[0] == 'arr':
        return tuple(('add', (), T, leaf(x)) for x in t[1])
    if t[0] in ('list', 'set'):
        return t[1]
    if t[0] == 'tuple':
        return tuple(('add', (), T, leaf(x)) for x in t[1])
    if t[0] in ('sorted', 'setof', 'dcopy', 'scopy'):
        if t[1][0] in ('list', 'set', 'tuple'):
            return list_ops(t[1], active)
    if is_str_const(t):
        return tuple(('add', (), T, cnode(c)) for c in t[2])
    b, f = iter_of(t)
    if b[0] in ('list', 'tuple') and b is not t:
        pass
    lvl = sum(1 for c in active if c[0] == b)
    return (('add', ((b, lvl),), T, f(lvl)),)


def frozen_list(ops):
    """canonical term of a list with these ops; identity copies collapse"""
    if len(ops) == 1 and ops[0][0] == 'add' and len(ops[0][1]) == 1 and ops[0][2] is T:
        (b, l) = ops[0][1][0][:2]
        v = ops[0][3]
        if b != 'while' and is_leaf(v):
            if v.leaf == ('elem', b, l):
                return b if b[0] not in ('dict', 'upd') else ('view', 'keys', b)
            if v.leaf == ('index', b, ('elem', b, l)):
                return ('view', 'values', b)
            if v.leaf == ('tuple', (('elem', b, l), ('index', b, ('elem', b, l)))):
                return ('view', 'items', b)
    return ('list', ops)


def frozen_dict(ops):
    if len(ops) == 1 and ops[0][0] == 'upd' and not ops[0][1] and ops[0][2] is T and is_leaf(ops[0][3]):
        return ('scopy', ops[0][3].leaf)
    return ('dict', ops)


def mk_mcall(recv, name, args, kw):
    if name == 'keys' and not args:
        return leaf(('view', 'keys', recv))
    if name in ('values', 'items') and not args:
        return leaf(('view', name, recv))
    if recv[0] == 'arr':
        if name == 'tolist' and not args:
            return leaf(('list', tuple(('add', (), T, leaf(x)) for x in recv[1])))
        if name in ('argsort', 'argmin', 'argmax', 'min', 'max', 'sum') and not args:
            r = mk_call('numpy.' + name, (recv,), ())
            if is_leaf(r) and r.leaf[0] in ('arr', 'const'):
                return r
        if name in ('copy', 'flatten', 'ravel') and not args:
            return leaf(recv)
        if name == 'astype' and args and args[0] in (('ext', 'float'), ('class', 'float')) and all(is_num_const(x) for x in recv[1]):
            return leaf(('arr', tuple(const(float(x[2])) for x in recv[1])))
    if name == '__contains__' and len(args) == 1:
        return mk_in(args[0], recv)
    if name == '__getitem__' and len(args) == 1:
        return mk_index(recv, args[0])
    if name == '__len__' and not args:
        return mk_call('len', (recv,), ())
    if name == '__eq__' and len(args) == 1:
        return mk_eq(recv, args[0])
    if is_const(recv) and name in PURE_FOLD and not kw:
        try:
            return leaf(from_py(getattr(recv[2], name)(*[pyval(a) for a in args])))
        except Exception:
            pass
    if is_const(recv) and recv[1] == 'str' and name == 'format':
        r = fmt_method(recv[2], args, dict(kw))
        if r is not None:
            return leaf(r)
    if recv[0] == 'call' and recv[1] == 're.compile' and name in ('search', 'match', 'fullmatch', 'split', 'findall', 'sub') and not kw:
        return mk_call('re.' + name, (recv,) + tuple(args), ())
    if recv[0] == 'rematch':
        try:
            ps = [pyval(a) for a in args]
            gd = dict(recv[5])
            one = lambda i: gd[i] if isinstance(i, str) else recv[4][i][0]
            if name == 'group' or name == '__getitem__':
                if len(ps) > 1:
                    return leaf(from_py(tuple(one(i) for i in ps)))
                return leaf(from_py(one(ps[0] if ps else 0)))
            if name == 'groups':
                return leaf(from_py(tuple(x[0] for x in recv[4][1:])))
            if name in ('start', 'end', 'span'):
                sp = recv[4][ps[0] if ps else 0][1]
                return leaf(from_py(sp if name == 'span' else sp[0] if name == 'start' else sp[1]))
        except Exception:
            pass
    if recv[0] in ('list', 'tuple') and name in ('index', 'count') and len(args) == 1:
        try:
            return leaf(from_py(getattr(list(pyval(recv)), name)(pyval(args[0]))))
        except Exception:
            pass
    if name == 'startswith' and len(args) == 1:
        return mk_startswith(recv, args[0])
    if name == 'endswith' and len(args) == 1:
        return mk_endswith(recv, args[0])
    if name == 'get' and 1 <= len(args) <= 2 and not kw and recv[0] in ('dict', 'upd', 'scopy', 'dcopy'):
        return lookup(recv, args[0], leaf(args[1] if len(args) > 1 else NONE))
    if name == 'copy' and not args:
        return leaf(('scopy', recv))
    if name in ('union',) and len(args) == 1:
        return mk_bin('|', ('setof', recv), args[0])
    if name == 'difference' and len(args) == 1:
        return mk_bin('-', ('setof', recv) if recv[0] not in ('setof', 'set') else recv, args[0])
    if name in ('strip', 'lstrip', 'rstrip'):
        r = unstr(recv)
        if r[0] == 'mcall' and r[2] == name and r[3] == tuple(args):
            return leaf(r)
        recv = r
    elif name in STR_METHODS or name in STR_LIST_METHODS or name in ('count', 'find', 'index', 'rfind', 'rindex'):
        recv = unstr(recv)
    return leaf(('mcall', recv, name, tuple(args), tuple(sorted(kw))))


OPFUN = {'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*', 'operator.truediv': '/', 'operator.pow': '**',
         'operator.mod': '%', 'operator.floordiv': '//', 'operator.__add__': '+', 'operator.__sub__': '-',
         'operator.__mul__': '*', 'operator.__truediv__': '/', 'operator.__pow__': '**',
         'operator.iadd': '+', 'operator.matmul': '@', 'pow': '**', 'operator.concat': '+'}


def mk_call(name, args, kw):
    n = len(args)
    if name == 'str' and n == 1:
        return leaf(mk_str(args[0]))
    if name == 'str' and n == 0:
        return cnode('')
    if name == 'len' and n == 1:
        a = args[0]
        if a[0] in ('tuple', 'arr'):
            return cnode(len(a[1]))
        if is_str_const(a):
            return cnode(len(a[2]))
        if a[0] in ('list', 'dict') and all(o[0] in ('add', 'set') and not o[1] and o[2] is T for o in a[1]):
            if a[0] == 'list':
                return cnode(len(a[1]))
            if all(is_leaf(o[3]) and is_const(o[3].leaf) for o in a[1]):
                return cnode(len({o[3].leaf for o in a[1]}))
        if a[0] in ('view', 'scopy', 'dcopy'):
            return mk_call('len', (a[2] if a[0] == 'view' else a[1],), ())
    if name == 'bool' and n == 1:
        return mk_truth(args[0])
    if name in OPFUN and n == 2:
        return mk_bin(OPFUN[name], args[0], args[1])
    if name == 'operator.contains' and n == 2:
        return mk_in(args[1], args[0])
    if name == 'operator.neg' and n == 1:
        return mk_neg(args[0])
    if name == 'operator.not_' and n == 1:
        return bnot(mk_truth(args[0]))
    if name == 'operator.getitem' and n == 2:
        return mk_index(args[0], args[1])
    if name in ('float', 'int') and n == 1 and is_const(args[0]) and args[0][1] in ('int', 'float', 'str', 'bool'):
        try:
            return cnode({'float': float, 'int': int}[name](args[0][2]))
        except Exception:
            pass
    if n == 1 and not kw and (name.startswith('numpy.') or name == 'abs'):
        r = arr_call(name, args[0])
        if r is not None:
            return r
    if name in ('numpy.argsort', 'numpy.sort') and n == 1 and [k for k, _ in kw] == ['kind']:
        r = arr_call(name, args[0])
        if r is not None:
            return r
    if name in ('abs', 'numpy.abs', 'numpy.absolute') and n == 1 and is_num_const(args[0]):
        return cnode(abs(args[0][2]))
    if name in ('numpy.abs', 'numpy.absolute', 'abs', 'math.fabs') and n == 1:
        return leaf(('call', 'abs', (args[0],), ()))
    if name in ('min', 'max', 'numpy.minimum', 'numpy.maximum') and n >= 2 and not kw and all(is_num_const(a) for a in args):
        return cnode((min if 'min' in name else max)(*[a[2] for a in args]))
    if name in FOLDCALL and n == 1 and not kw:
        try:
            return leaf(from_py(FOLDCALL[name](pyval(args[0]))))
        except Exception:
            pass
    if name.startswith('re.') and n >= 2 and args[0][0] == 'call' and args[0][1] == 're.compile' and not args[0][3]:
        if len(args[0][2]) == 1:
            return mk_call(name, (args[0][2][0],) + tuple(args[1:]), kw)
        if len(args[0][2]) == 2 and not kw:
            return mk_call(name, (args[0][2][0],) + tuple(args[1:]), (('flags', args[0][2][1]),))
    if name in ('re.split', 're.findall', 're.sub') and n >= 2 and all(is_str_const(a) for a in args) and len(args) == (3 if name == 're.sub' else 2):
        fl = re_flags((), kw)
        if fl is not None:
            try:
                return leaf(from_py(getattr(re, name[3:])(*[a[2] for a in args], flags=fl)))
            except Exception:
                pass
    if name in REFUN and 2 <= n <= 3 and is_str_const(args[0]) and is_str_const(args[1]):
        r = re_fold(name, args, kw)
        if r is not None:
            return r
    if name in ('re.escape',) and n == 1 and is_str_const(args[0]):
        return cnode(re.escape(args[0][2]))
    if name in ('sorted', 'list', 'tuple', 'set', 'frozenset') and n == 1:
        pass
    if name == 'os.path.splitext' and n == 1 and is_str_const(args[0]):
        return leaf(from_py(os.path.splitext(args[0][2])))
    if name in ('os.path.splitext', 'os.path.basename') and n == 1:
        c = _last_part(args[0])
        if c is not None and name == 'os.path.basename':
            return cnode(c)
        if c is not None:
            a, b = os.path.splitext(c)
            j = mk_call('os.path.join', args[0][2][:-1] + (const(a),), ())
            return bind(j, lambda x: leaf(('tuple', (x, const(b)))))
    return leaf(('call', name, tuple(args), tuple(sorted(kw))))


def _last_part(t):
    """constant file name at the end of a joined path"""
    if t[0] == 'call' and t[1] == 'os.path.join' and len(t[2]) >= 2 and is_str_const(t[2][-1]) and t[2][-1][2] and '/' not in t[2][-1][2]:
        return t[2][-1][2]
    return None


FOLDCALL = {'min': min, 'max': max, 'sum': sum, 'numpy.argmin': lambda x: x.index(min(x)), 'numpy.argmax': lambda x: x.index(max(x)),
            'numpy.sum': sum, 'numpy.min': min, 'numpy.max': max, 'numpy.amin': min, 'numpy.amax': max}
REFUN = {'re.search': re.search, 're.match': re.match, 're.fullmatch': re.fullmatch}
REFLAGS = {'IGNORECASE': re.I, 'I': re.I, 'MULTILINE': re.M, 'M': re.M, 'DOTALL': re.S, 'S': re.S, 'VERBOSE': re.X, 'X': re.X}


def re_flags(args, kw):
    fl = args[2] if len(args) > 2 else dict(kw).get('flags')
    if set(dict(kw)) - {'flags'}:
        return None
    if fl is None:
        return 0
    if fl[0] == 'ext' and fl[1].startswith('re.') and fl[1].split('.')[-1] in REFLAGS:
        return REFLAGS[fl[1].split('.')[-1]]
    if is_int_const(fl):
        return fl[2]
    return None


def re_fold(name, args, kw):
    fl = re_flags(args, kw)
    if fl is None:
        return None
    try:
        m = REFUN[name](args[0][2], args[1][2], fl)
    except Exception:
        return None
    if m is None:
        return cnode(None)
    return leaf(('rematch', args[0][2], args[1][2], m.span(), tuple((m.group(i), m.span(i)) for i in range((m.re.groups or 0) + 1)),
                 tuple(sorted(m.groupdict().items()))))


def mk_neg(a):
    if is_num_const(a):
        return cnode(-a[2])
    return leaf(('neg', a))


# -- substitution ---------------------------------------------------------------
def subst(v, m, memo=None):
    """substitute terms (dict term -> term) in a diagram, renormalising"""
    if memo is None:
        memo = {}
    if isinstance(v, Node):
        k = v.nid
        r = memo.get(k)
        if r is not None:
            return r
        if v.var is None:
            r = subst_t(v.leaf, m, memo)
        else:
            a = atom_term(v.var)
            g = subst_atom(a, m, memo)
            r = ite(g, subst(v.hi, m, memo), subst(v.lo, m, memo))
        memo[k] = r
        return r
    raise TypeError


def subst_atom(a, m, memo):
    k = ('a', a)
    r = memo.get(k)
    if r is None:
        r = _rebuild(a, m, memo)
        r = truth(r)
        memo[k] = r
    return r


def subst_t(t, m, memo):
    if t in m:
        return leaf(m[t])
    r = memo.get(t)
    if r is None:
        r = _rebuild(t, m, memo)
        memo[t] = r
    return r


def _kw(kw, m, memo):
    return [k for k, _ in kw], [subst_t(v, m, memo) for _, v in kw]


def _lift(f, *vs):
    r = lift(f, *vs)
    if r is None:
        return leaf(('big', vs))
    return r


def _ops(ops, m, memo):
    out = []
    for op in ops:
        new = [op[0], tuple(_chain(op[1], m, memo)), subst(op[2], m, memo)]
        for x in op[3:]:
            new.append(subst(x, m, memo) if isinstance(x, Node) else x)
        out.append(tuple(new))
    return tuple(out)


def _chain(chain, m, memo):
    out = []
    for c in chain:
        if c[0] == 'while':
            out.append(c)
            continue
        b = subst_t(c[0], m, memo)
        out.append((b.leaf if is_leaf(b) else c[0],) + tuple(c[1:]))
    return out


def _rebuild(t, m, memo):
    h = t[0]
    S = lambda x: subst_t(x, m, memo)
    if h == 'coll':
        d = COLL[t]
        r = subst(d, m, memo)
        return leaf(t) if r is d else leaf(mk_coll(r))
    if h in ('const', 'param', 'class', 'func', 'ext', 'undef', 'ref', 'global', 'missing', 'absent', 'sym'):
        return leaf(t)
    if h == 'attr':
        return _lift(lambda a: mk_attr(a, t[2]), S(t[1]))
    if h == 'index':
        return _lift(mk_index, S(t[1]), S(t[2]))
    if h == 'slice':
        return _lift(mk_slice, S(t[1]), S(t[2]), S(t[3]), S(t[4]))
    if h in ('elem', 'idx'):
        return _lift(lambda a: leaf((h, unwrap(a), t[2])), S(t[1]))
    if h in ('dcopy', 'scopy'):
        if not m:
            return S(t[1])         # value view: copies are transparent
        return _lift(lambda a: leaf((h, a)), S(t[1]))
    if h in ('setof',):
        return _lift(lambda a: leaf((h, a)), S(t[1]))
    if h == 'str':
        return _lift(lambda a: leaf(mk_str(a)), S(t[1]))
    if h == 'sorted':
        return _lift(lambda a: leaf((h, a) + t[2:]), S(t[1]))
    if h == 'view':
        return _lift(lambda a: leaf(('view', t[1], a)), S(t[2]))
    if h == 'call':
        ks, kv = _kw(t[3], m, memo)
        n = len(t[2])
        return _lift(lambda *xs: mk_call(t[1], xs[:n], tuple(zip(ks, xs[n:]))), *([S(x) for x in t[2]] + kv))
    if h in ('rec', 'new'):
        ks, kv = _kw(t[2], m, memo)
        return _lift(lambda *xs: leaf((h, t[1], tuple(zip(ks, xs)))), *kv)
    if h == 'mcall':
        ks, kv = _kw(t[4], m, memo)
        n = len(t[3])
        return _lift(lambda r, *xs: mk_mcall(r, t[2], xs[:n], tuple(zip(ks, xs[n:]))),
                     *([S(t[1])] + [S(x) for x in t[3]] + kv))
    if h == 'bin':
        return _lift(lambda a, b: mk_bin(t[1], a, b), S(t[2]), S(t[3]))
    if h == 'neg':
        return _lift(mk_neg, S(t[1]))
    if h == 'fmt':
        idx = [i for i, p in enumerate(t[1]) if not isinstance(p, str)]

        def f(*xs):
            parts = list(t[1])
            for i, x in zip(idx, xs):
                parts[i] = x
            return leaf(mk_fmt(parts))
        return _lift(f, *[S(t[1][i]) for i in idx])
    if h == 'tuple':
        return _lift(lambda *xs: leaf(('tuple', tuple(xs))), *[S(x) for x in t[1]])
    if h in ('list', 'set'):
        return leaf(frozen_list(_ops(t[1], m, memo)) if h == 'list' else ('set', _ops(t[1], m, memo)))
    if h == 'dict':
        ops = _ops(t[1], m, memo)
        if not m:
            # value view of a shallow copy
            r = frozen_dict(ops)
            if r[0] == 'scopy':
                return leaf(r[1])
            return leaf(r)
        return leaf(('dict', ops))
    if h == 'upd':
        b = S(t[1])
        ops = _ops(t[2], m, memo)
        return _lift(lambda a: leaf(('upd', a, ops)), b)
    if h == 'first':
        return leaf(('first', tuple(_chain(t[1], m, memo)), subst(t[2], m, memo), _one(S(t[3]))))
    if h == 'lam':
        return leaf(('lam', t[1], subst(t[2], m, memo)))
    if h == 'starred':
        return _lift(lambda a: leaf((h, a)), S(t[1]))
    # atoms
    if h == 'truth':
        return _lift(mk_truth, S(t[1]))
    if h == 'isnone':
        return _lift(mk_isnone, S(t[1]))
    if h == 'eq':
        return _lift(mk_eq, S(t[1]), S(t[2]))
    if h == 'lt':
        return _lift(mk_lt, S(t[1]), S(t[2]))
    if h == 'in':
        return _lift(mk_in, S(t[1]), S(t[2]))
    if h == 'startswith':
        return _lift(mk_startswith, S(t[1]), S(t[2]))
    if h == 'endswith':
        return _lift(mk_endswith, S(t[1]), S(t[2]))
    if h == 'isinst':
        return _lift(lambda a: mk_isinst(a, t[2]), S(t[1]))
    if h == 'exists':
        return mk_exists(tuple(_chain(t[1], m, memo)), subst(t[2], m, memo))
    if h == 'raises':
        sig = []
        for x in t[2]:
            sig.append(_one(S(x)))
        return atom(('raises', t[1], tuple(sig)))
    if h == 'is':
        return _lift(lambda a, b: atom(('is', a, b)), S(t[1]), S(t[2]))
    return leaf(t)


def _one(v):
    return v.leaf if is_leaf(v) else ('gated', v)
