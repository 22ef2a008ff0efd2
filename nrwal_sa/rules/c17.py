"""C17: content of the wrong type is rejected."""
from .common import *
from .layers import *
from ..mtbdd import atom
from ..spec import Spec

RULES = ['constructors and evaluation are folded on mappings in which one value is an arbitrary value of a given type (all types YAML, JSON, numpy and '
         'pandas can supply), in first, middle and last place: for a type outside the stated ones the condition of a normal return must be false, for '
         'a stated type it must not be',
         'the same for keys that are numbers (whole, decimal, negative, exponent, as text), for sources of every type, for paths with every kind of '
         'ending, for paths that do not exist and for files whose content is not a mapping']
ASSUMPTIONS = ['calls of library functions do not raise by themselves (what raises is what the code rejects explicitly or a missing method / failing '
               'conversion of a value of known type)', 'a value of a type is only inspected through isinstance, type, its text and its methods']

WRONG = ['NoneType', 'list', 'tuple', 'set', 'frozenset', 'range', 'bytes', 'datetime.date', 'datetime.datetime', 'numpy.ndarray', 'pandas.Series',
         'pandas.DataFrame', 'function', 'object', 'numpy.datetime64']
NOCALL = ('EquationDirectory.__init__',)


def V(ty, label='v'):
    return tm.cnode(None) if ty == 'NoneType' else leaf(('val', ty, label))


def check(ctx, rep):
    rep.part('group values', _group_values, ctx, rep)
    rep.part('group keys', _group_keys, ctx, rep)
    rep.part('config values', _config_values, ctx, rep, limit=200)
    rep.part('evaluation inputs', _inputs, ctx, rep)
    rep.part('config inputs', _config_inputs, ctx, rep)
    rep.part('sources', _sources, ctx, rep)
    rep.floor('typed values propagated', 150)


# text of these is never a number
NEVER_NUM = set(WRONG) - {'numpy.ndarray', 'object', 'pandas.Series'} | {'dict'}


def fix(a):
    """facts about values of a type"""
    if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == 'Equation.is_num' and len(a[1][2]) >= 1:
        t = a[1][2][-1]
        while t[0] in ('str', 'dcopy', 'scopy'):
            t = t[1]
        if t[0] == 'val' and t[1] in NEVER_NUM:
            return False
        if t[0] == 'val' and t[1] in ('int', 'float'):
            return True
    if a[0] == 'cut':
        return None
    return None


def judge(rep, rule, w, run, what, want, src):
    """want: 'refuse' or 'accept'; run: the folded call (a summary), or a function that folds it"""
    rep.count('typed values propagated')
    if want == 'refuse' and callable(run):
        # a representative first: what it lets through is definite
        tm.VAL_TEXT.update(tm.VAL_TEXTS)
        try:
            s = run()
        finally:
            tm.VAL_TEXT.clear()
        pc = restrict(s.pc, assume_atoms(s.pc, lambda a: False if _vars_of_val(a) or a[0] == 'in' and a[2][0] == 'val' and tm.is_const(a[1]) else fix(a)))
        if pc is T or pc is not F and (_on_value(pc) or implied(pc, F)[0] is False):
            rep.bad(rule, w, '%s is not refused%s' % (what, '' if pc is T else ' if ' + show(pc, 200)), key='%s@%s' % (rule, src))
            return False
        if pc is not F:
            rep.unk(rule, w, '%s is refused unless %s' % (what, show(pc, 200)))
            return None
    s = run() if callable(run) else run
    pc = s.pc
    pc = restrict(pc, assume_atoms(pc, fix))
    if want == 'refuse':
        if pc is F:
            rep.ok(rule, w, '%s is refused' % what)
            return True
        if pc is T:
            rep.bad(rule, w, '%s is not refused' % what, key='%s@%s' % (rule, src))
            return False
        v, c = implied(pc, F)
        if v is False or _on_value(pc):
            rep.bad(rule, w, '%s is not refused if %s' % (what, show(pc, 200)), key='%s@%s' % (rule, src))
            return False
        rep.unk(rule, w, '%s is refused unless %s' % (what, show(pc, 200)))
        return None
    if pc is F:
        ex = ', '.join(sorted({str(r.exc) for r in s.raises if r.guard is not F})[:4])
        rep.bad(rule, w, '%s is refused (%s)' % (what, ex), key='%s@%s' % (rule, src))
        return False
    if pc is T:
        rep.ok(rule, w, '%s is accepted' % what)
        return True
    rep.unk(rule, w, '%s is accepted only if %s' % (what, show(pc, 200)))
    return None


def _vars_of_val(a):
    """the text of the value names nothing"""
    def pv(t):
        if not (t[0] == 'call' and t[1] == 'Equation.parse_variables' and len(t[2]) >= 1):
            return False
        x = t[2][-1]
        while x[0] in ('dcopy', 'scopy', 'str'):
            x = x[1]
        return x in (tm.NONE, tm.const('None')) or x[0] == 'val'
    return a[0] == 'in' and pv(a[2]) or a[0] == 'truth' and pv(a[1])


def _on_value(pc):
    """some case of the condition is a fact about the value itself that some value of the type satisfies"""
    for g in [pc]:
        ats = atoms_of(g)
        if ats and all(a[0] in ('truth', 'isnone') and len(a) > 1 and a[1][0] == 'val' for a in ats):
            return True
        if ats and all(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] in ('len', 'Equation.is_num', 'hasattr', 'callable') and
                       any(x[0] == 'val' or x[0] == 'str' and x[1][0] == 'val' for x in a[1][2]) for a in ats):
            return True
    return False


def LISTS():
    return [('the list []', leaf(tm.from_py([]))), ('the list [1.5, 2]', leaf(tm.from_py([1.5, 2]))), ("the list [('a', 1.5)]", leaf(tm.from_py([('a', 1.5)]))),
            ('the tuple ()', leaf(tm.from_py(())))]


def spots(bad, good=None):
    """a value in first, middle and last place, and alone"""
    good = good or [1.5, 2]
    yield 'alone', {'v': bad}
    yield 'first', {'v': bad, 'g1': good[0], 'g2': good[1]}
    yield 'in the middle', {'g1': good[0], 'v': bad, 'g2': good[1]}
    yield 'last', {'g1': good[0], 'g2': good[1], 'v': bad}
    yield 'first in sorted order', {'g1': good[0], 'a': bad}


def noraise(types, sig):
    return F


def _group_values(ctx, rep):
    sp = Spec(ctx)
    for cls, wrong, good in (('EquationGroup', WRONG, [('text', 'x + 1'), ('numeric text', '3'), ('int', 3), ('float', 2.5), ('negative', -1), ('dict', {'q': 1})]),
                             ('VariableGroup', WRONG + ['dict', 'str'], [('int', 3), ('float', 2.5), ('zero', 0), ('negative', -1.5)])):
        w = where(ctx.prog.func(cls, '__init__'))
        items = [('a value of type %s' % t, V(t)) for t in wrong if t != 'str'] + LISTS()
        if 'str' in wrong:
            items += [('the text %r' % t, t) for t in ('1', '1.5', 'x', '', '1e5', 'x + 1')]
        for nm, v in items:
            for at, g in spots(v):
                def s(g=g):
                    return sp.run(cls, '__init__', {'group': g}, raise_hint=noraise, objects=('Equation',))
                if judge(rep, '%s value' % cls, w, s, '%s (%s)' % (nm, at), 'refuse', nm) is not True:
                    break
        for nm, v in good:
            s = sp.run(cls, '__init__', {'group': {'v': v, 'w': 2}}, raise_hint=noraise, objects=('Equation',))
            judge(rep, '%s value' % cls, w, s, 'a value (%s)' % nm, 'accept', nm)


NUMKEYS = ['1', '12', '1.5', '-3', '1e5', '+2', '.5', '5.', '1E-3', '0', 3, 2.5, -1, 0]


def _group_keys(ctx, rep):
    sp = Spec(ctx)
    for cls in ('EquationGroup', 'VariableGroup'):
        w = where(ctx.prog.func(cls, '__init__'))
        for k in NUMKEYS:
            for at, g in (('first', {k: 2, 'x': 1.5}), ('last', {'x': 1.5, k: 2}), ('between', {'a': 1, k: 2, 'x': 1.5})):
                s = sp.run(cls, '__init__', {'group': g}, raise_hint=noraise, objects=('Equation',))
                if judge(rep, '%s key' % cls, w, s, 'the key %r (%s)' % (k, at), 'refuse', 'numeric key') is not True:
                    break
        for k in ('x', 'x1', '_1', 'e5', 'a_1MW', 'a.b', '1a'):
            s = sp.run(cls, '__init__', {'group': {k: 2, 'z': 1}}, raise_hint=noraise, objects=('Equation',))
            judge(rep, '%s key' % cls, w, s, 'the key %r' % k, 'accept', 'key')
    # values and keys inside nested mappings: the nested group is built by the same constructor
    w = where(ctx.prog.func('EquationGroup', '__init__'))
    s = sp.run('EquationGroup', '__init__', {'group': {'sub': {'v': V('list'), '1': 2}, 'x': 1}}, raise_hint=noraise, objects=('Equation',))
    st = s.state.fields.get((SELF, ctx.store_attr('EquationGroup')))
    rep.count('typed values propagated')
    if s.pc is F:
        rep.ok('nested mapping', w, 'wrong content of a nested mapping is refused')
        return
    sub = None
    if st is not None:
        v = bind(s.fz(st), lambda t: tm.lookup(t, tm.const('sub'), leaf(('missing',))))
        sub = v.leaf if is_leaf(v) else None
    if sub is not None and sub[0] == 'new' and sub[1] == 'EquationGroup':
        a = dict(sub[2]).get('group')
        keys = None
        if a is not None and a[0] == 'dict':
            its = s.engine._dict_items(a)
            keys = {x.leaf[2] for x, _ in its if is_leaf(x)} if its is not None else None
        if keys is None:
            rep.unk('nested mapping', w, 'content of the nested group not decided')
        elif keys >= {'v', '1'}:
            rep.ok('nested mapping', w, 'a nested mapping is read by the same constructor, with all its entries')
        else:
            rep.bad('nested mapping', w, 'entries of a nested mapping are dropped before they are checked (%s left)' % sorted(keys), key='nested@dropped')
    elif sub is not None and sub[0] in ('dict', 'missing'):
        rep.bad('nested mapping', w, 'a nested mapping is %s' % ('kept as it is' if sub[0] == 'dict' else 'dropped'), key='nested@kept')
    else:
        rep.unk('nested mapping', w, 'the nested mapping becomes %s' % (show(sub, 100) if sub else '?'))


def cfg(ctx, sp, config, inputs=None, ext=None):
    f = ctx.prog.func('NrwalConfig', '__init__')
    ps = f.params()
    return sp.run('NrwalConfig', '__init__', {ps[1]: config, 'inputs': inputs if inputs is not None else tm.cnode(None)},
                  stop=tuple(PREDICATES) + NOCALL, hint=Spec.equation_hint, raise_hint=Spec.library(set()), ext=ext)


def _config_values(ctx, rep):
    sp = Spec(ctx)
    w = where(ctx.prog.func('NrwalConfig', '__init__'))
    for ty in WRONG + ['dict']:
        for at, c in (('alone', {'v': V(ty)}), ('first', {'v': V(ty), 'b': 'y + 1'}), ('last', {'b': 'y + 1', 'v': V(ty)}), ('between', {'x': 1.5, 'v': V(ty), 'b': 'y + 1'}),
                      ('used by another entry', {'b': 'v + 1', 'v': V(ty)})):
            if judge(rep, 'config value', w, lambda: cfg(ctx, sp, c), 'a config value of type %s (%s)' % (ty, at), 'refuse', ty) is not True:
                break
    for nm, v in LISTS():
        judge(rep, 'config value', w, lambda: cfg(ctx, sp, {'v': v, 'b': 'y + 1'}), '%s as a config value' % nm, 'refuse', nm)
    for nm, v in (('text', 'x + 1'), ('numeric text', '3'), ('int', 3), ('float', 2.5), ('negative', -1), ('a name', 'x')):
        s = cfg(ctx, sp, {'v': v, 'w': 2})
        judge(rep, 'config value', w, s, 'a config value (%s)' % nm, 'accept', nm)
    for k in NUMKEYS:
        for at, c in (('first', {k: 'y + 1', 'x': 1.5}), ('last', {'x': 1.5, k: 'y + 1'}), ('a number', {'x': 1.5, k: 2})):
            s = cfg(ctx, sp, c)
            if judge(rep, 'config key', w, s, 'the config key %r (%s)' % (k, at), 'refuse', 'numeric key') is not True:
                break
    for k in ('x', 'x1', '_1', 'e5'):
        s = cfg(ctx, sp, {k: 'y + 1', 'z': 1})
        judge(rep, 'config key', w, s, 'the config key %r' % k, 'accept', 'key')


BADIN = ['numpy.str_', 'numpy.datetime64', 'NoneType', 'dict', 'set', 'frozenset', 'range', 'bytes', 'datetime.date', 'datetime.datetime', 'pandas.Series', 'pandas.DataFrame', 'function', 'object']
GOODIN = ['int', 'float', 'list', 'tuple', 'numpy.ndarray', 'numpy.float32', 'numpy.int64']


def _inputs(ctx, rep):
    sp = Spec(ctx)
    f = ctx.prog.func('Equation', 'evaluate')
    w = where(f)
    kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
    ea, da = ctx.eqn_attr, ctx.def_attr('Equation')

    def run(kw):
        return sp.run('Equation', 'evaluate', {kwn: kw, 'self.' + ea: leaf(tm.const('x + v')), 'self.' + da: {}}, raise_hint=noraise)
    if kwn is None:
        rep.unk('evaluation input', w, 'evaluate takes no keyword arguments')
        return
    for ty in BADIN + ['text']:
        v = V(ty) if ty != 'text' else 'abc'
        for at, kw in (('first', {'v': v, 'x': 1.5}), ('last', {'x': 1.5, 'v': v}), ('unused', {'x': 1.5, 'v': 2.5, 'zz': v}), ('unused, first', {'a': v, 'x': 1.5, 'v': 2.5})):
            if judge(rep, 'evaluation input', w, lambda: run(kw), 'an input of type %s (%s)' % (ty, at), 'refuse', ty) is not True:
                break
    for ty in GOODIN:
        judge(rep, 'evaluation input', w, run({'v': V(ty), 'x': 1.5}), 'an input of type %s' % ty, 'accept', ty)


def _config_inputs(ctx, rep):
    sp = Spec(ctx)
    c = ctx.prog.cls('NrwalConfig')
    f = next((k.setters['inputs'] for k in c.mro if 'inputs' in k.setters), None)
    if f is None:
        rep.unk('config input', 'NrwalConfig', 'inputs setter not found')
        return
    w = where(f)
    attr = ctx.returned_attr('NrwalConfig', 'inputs')
    p = [x for x in f.params() if x != 'self'][0]

    def run(v, old=None):
        return sp.run('NrwalConfig', f, {p: v, 'self.' + attr: old or {}}, raise_hint=noraise)
    for ty in BADIN + ['text']:
        v = V(ty) if ty != 'text' else 'abc'
        for at, kw in (('alone', {'v': v}), ('first', {'v': v, 'x': 1.5}), ('last', {'x': 1.5, 'v': v})):
            if judge(rep, 'config input', w, lambda: run(kw), 'a config input of type %s (%s)' % (ty, at), 'refuse', ty) is not True:
                break
        s = run({'v': v}, old={'v': 1.5})
        judge(rep, 'config input', w, s, 'a config input of type %s in place of a number' % ty, 'refuse', ty)
        if ty in ('NoneType', 'text', 'dict'):
            wi = where(ctx.prog.func('NrwalConfig', '__init__'))
            s = cfg(ctx, sp, {'b': 'y + 1'}, inputs={'v': v})
            judge(rep, 'config input', wi, s, 'a config input of type %s given to the constructor' % ty, 'refuse', ty)
    for ty in GOODIN:
        s = run({'v': V(ty), 'x': 1.5})
        if s.pc is F:
            judge(rep, 'config input', w, s, 'a config input of type %s' % ty, 'accept', ty)
        else:
            rep.count('typed values propagated')
            rep.ok('config input', w, 'a config input of type %s is accepted' % ty)
    for ty in ['list', 'tuple', 'set', 'str', 'int', 'float', 'bytes', 'numpy.ndarray', 'pandas.Series', 'function', 'object', 'range']:
        judge(rep, 'config inputs as a whole', w, lambda: run(V(ty)), 'inputs given as %s' % ty, 'refuse', ty)
    for nm, v in LISTS():
        judge(rep, 'config inputs as a whole', w, lambda: run(v), 'inputs given as %s' % nm, 'refuse', nm)
    # evaluate(inputs=...) stores them the same way
    g = ctx.prog.func('NrwalConfig', 'evaluate')
    for q in [x for x in g.params() if x == 'inputs']:
        for ty in ('NoneType', 'text', 'dict', 'set'):
            v = V(ty) if ty != 'text' else 'abc'
            s = sp.run('NrwalConfig', 'evaluate', {q: {'v': v}, 'self.' + attr: {}}, raise_hint=noraise)
            judge(rep, 'config input', where(g), s, 'a config input of type %s given to evaluate' % ty, 'refuse', ty)


SRC = ['NoneType', 'list', 'tuple', 'set', 'range', 'bytes', 'int', 'float', 'numpy.ndarray', 'pandas.DataFrame', 'pandas.Series', 'function', 'object']
NOTFILES = ['x.txt', 'x', 'd/x.csv', 'yaml', 'xjson', 'x.yaml.bak', 'x.py', 'x.yml.txt', 'x.toml', 'x.yamlx', 'json/x']
FILES = ['x.yaml', 'x.yml', 'x.json', 'd/x.y.yaml']


def _sources(ctx, rep):
    sp = Spec(ctx)
    for cls, p in (('EquationGroup', 'group'), ('VariableGroup', 'group'), ('NrwalConfig', 'config')):
        w = where(ctx.prog.func(cls, '__init__'))

        def run(v, ext=None):
            if cls == 'NrwalConfig':
                return cfg(ctx, sp, v, ext=ext)
            return sp.run(cls, '__init__', {p: v}, raise_hint=noraise, objects=('Equation',), ext=ext)
        for nm, v in LISTS():
            judge(rep, '%s source' % cls, w, lambda: run(v), '%s as a source' % nm, 'refuse', nm)
        for ty in SRC:
            judge(rep, '%s source' % cls, w, lambda: run(V(ty)), 'a source of type %s' % ty, 'refuse', ty)
        for path in NOTFILES:
            s = run(tm.cnode(path), files(True, DATA[cls]))
            rep.count('paths propagated')
            if judge(rep, '%s source' % cls, w, s, 'the existing path %r' % path, 'refuse', 'ending') is not True:
                break
        for path in FILES:
            s = run(tm.cnode(path), files(False, DATA[cls]))
            judge(rep, '%s source' % cls, w, s, 'the missing path %r' % path, 'refuse', 'missing')
            s = run(tm.cnode(path), files(True, DATA[cls]))
            judge(rep, '%s source' % cls, w, s, 'the existing path %r' % path, 'accept', 'file')
            for ty in ('NoneType', 'list', 'str', 'int', 'float', 'datetime.date', 'numeric text', 'text'):
                v = tm.cnode('1') if ty == 'numeric text' else tm.cnode('x') if ty == 'text' else V(ty)
                s = run(tm.cnode(path), files(True, v))
                judge(rep, '%s source' % cls, w, s, 'content of type %s of the file %r' % (ty, path), 'refuse', 'content')
            rep.count('paths propagated')


DATA = {'EquationGroup': {'a': 'x + 1'}, 'VariableGroup': {'a': 1.5}, 'NrwalConfig': {'b': 'y + 1'}}


def files(exists, content):
    """what the file system says about every path"""
    def load(args):
        return content

    def yes(args):
        return T if exists else F

    def opened(args):
        return None if exists else 'FileNotFoundError'
    ext = {n: load for n in ('yaml.safe_load', 'yaml.load', 'yaml.full_load', 'json.load', 'json.loads')}
    ext.update({'os.path.exists': yes, 'os.path.isfile': yes, 'os.path.lexists': yes, 'os.path.isdir': lambda args: F, 'open': opened, 'io.open': opened})
    return ext
