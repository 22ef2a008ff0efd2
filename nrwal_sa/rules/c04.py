"""C04: combined and derived objects share no mutable state with their sources."""
from .common import *
from ..own import Facts, show as oshow, CALLER, public

RULES = ['operations that combine or derive objects (arithmetic operators, "+" of groups and directories, equation replacement, retrieval, custom copying): '
         'no in-place operation or attribute assignment may change the state (default variables, entries, text, name) of an operand',
         'the object returned is not an operand itself, and nothing reachable from a state field of the result is an object reachable from an operand: '
         'only deep copies and new objects',
         'constructing an equation and setting default variables stores only deep copies of what was given']
ASSUMPTIONS = ['copy.deepcopy gives an independent object (package classes that customise it are analysed as an operation of their own)',
               'values that are evidently text or numbers are not shared state']

OPS = ('__add__', '__sub__', '__mul__', '__pow__', '__div__', '__truediv__', '__floordiv__', '__mod__', '__matmul__', '__neg__', '__pos__', '__abs__',
       '__or__', '__and__', '__iadd__', '__isub__', '__imul__', '__itruediv__', '__ipow__', '__ior__', '__radd__', '__rsub__', '__rmul__', '__rtruediv__', '__rpow__', '__ror__', 'replace_equation', '__deepcopy__', '__copy__', 'copy')
RETRIEVE = ('__getitem__', 'get', '__getattr__')


def check(ctx, rep):
    facts = Facts(ctx)
    rep.part('operations', _ops, ctx, rep, facts, limit=400)
    rep.part('own copies', _own_copies, ctx, rep, facts, limit=200)
    rep.count('package functions inlined', len(facts.own.inlined))
    rep.count('calls followed', facts.own.calls)
    rep.floor('operations', 20)


def name(c, f):
    return (c.name + '.' if c else '') + f.name


def state_attrs(ctx, facts):
    """{class name: attributes that make up the state of an object}: whatever some method changes in place, the default variables and the entries"""
    out = {}
    for cn, ps in facts.mutated_fields().items():
        for p in ps:
            if isinstance(p[0], tuple):
                out.setdefault(cn, set()).add(p[0][1])
    for c in ctx.classes():
        s = out.setdefault(c.name, set())
        for m in ('default_variables', 'keys', 'var_dict'):
            if c.find(m) is not None:
                try:
                    a = ctx.returned_attr(c.name, m)
                except Exception:
                    a = None
                if a:
                    s.add(a)
    # what a superclass or subclass changes is state of both
    for c in ctx.classes():
        for k in c.mro:
            out[c.name] |= out.get(k.name, set())
    return out


def text_attrs(ctx, c):
    """attributes holding the text and the name of an object"""
    out = set()
    try:
        out.add(ctx.returned_attr(c.name, 'full'))
    except Exception:
        pass
    f = c.find('__init__')
    if f is not None:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ('name', 'eqn'):
                out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out - {None}


def _ops(ctx, rep, facts):
    st = state_attrs(ctx, facts)
    allstate = set().union(*st.values()) if st else set()
    for c, f in facts.entries:
        if c is None or f.name not in OPS + RETRIEVE or c.name not in st:
            continue
        if f.name in ('get', '__getattr__') and f.name in RETRIEVE and c.find('__getitem__') is None:
            continue
        r = facts.own.run(f, c)
        ctx.analysed.add(name(c, f))
        rep.count('operations')
        _operands(ctx, rep, c, f, r, st, allstate)
        _result(ctx, rep, c, f, r, st, allstate)


def _operands(ctx, rep, c, f, r, st, allstate):
    texts = set()
    for k in ctx.classes():
        texts |= text_attrs(ctx, k)
    n = 0
    for m in r.muts:
        root, path = m.node[1], m.node[2]
        if root[0] not in ('self',) + CALLER:
            continue
        attr = None
        if m.op.startswith('attribute ') and m.op.endswith(' set'):
            attr = m.op.split(' ')[1]
            if attr not in allstate | texts:
                continue
        elif m.op == 'attribute set' or not path:
            if root[0] == 'self' or m.op == 'attribute set':
                rep.unk('operands', m.where, '%s: %s' % (oshow(m.node), m.op))
                continue
        else:
            attrs = {s[1] for s in path if isinstance(s, tuple)}
            if not attrs & (allstate | texts):
                continue
        n += 1
        rep.bad('operands', m.where, '%s changes an operand: %s %s' % (name(c, f), oshow(m.node), m.op), key='operands@%s' % m.where.split(' ')[-1])
    if not n:
        rep.ok('operands', name(c, f), 'operands are left unchanged')


def _result(ctx, rep, c, f, r, st, allstate):
    n = 0
    for node in r.ret:
        if node[0] == 'r' and node[1][0] in ('self',) + CALLER:
            if f.name in RETRIEVE:
                continue            # plain retrieval hands out the entry itself
            n += 1
            rep.bad('result', f.where, 'the result of %s can be an operand itself (%s)' % (name(c, f), oshow(node)), key='result@%s' % f.qual)
            continue
        k = r.ncls.get(node)
        if node[0] not in ('r', 'a'):
            continue
        for p, m in r.reach([node], 4):
            if not p or m[0] != 'r' or m[1][0] not in ('self',) + CALLER:
                continue
            first = p[0]
            if k is not None and isinstance(first, tuple):
                if first[1] not in st.get(k.name, ()):
                    continue
            elif k is None and f.name in RETRIEVE:
                continue
            n += 1
            rep.bad('result', f.where, 'the result of %s shares %s with an operand (%s)'
                    % (name(c, f), ''.join('.' + s[1] if isinstance(s, tuple) else '[...]' for s in p), oshow(m)), key='result@%s' % f.qual)
        # shallow copies: fields not written are those of the source
        base = r.state.heap.get((node, '@base'))
        if base and k is not None:
            for a in sorted(st.get(k.name, ())):
                for m in r.get(node, ('.', a)):
                    if m[0] == 'r' and m[1][0] in ('self',) + CALLER:
                        n += 1
                        rep.bad('result', f.where, 'the result of %s shares its %s with an operand (%s)' % (name(c, f), a, oshow(m)), key='result@%s' % f.qual)
    if not n:
        rep.ok('result', name(c, f), 'the result shares no state with the operands')


def _own_copies(ctx, rep, facts):
    for c, f in facts.entries:
        if c is None or f.name not in ('__init__', 'set_default_variables'):
            continue
        if c.find('default_variables') is None and f.name != 'set_default_variables':
            continue
        a = None
        try:
            a = ctx.returned_attr(c.name, 'default_variables') if c.find('default_variables') else None
        except Exception:
            pass
        if a is None:
            continue
        r = facts.own.run(f, c)
        selfn = ('r', ('self',), ())
        bad = [(p, m) for p, m in r.reach(r.get(selfn, ('.', a)), 3) if m[0] == 'r' and m[1][0] in CALLER]
        rep.count('own copies')
        if bad:
            p, m = bad[0]
            rep.bad('own copy', f.where, '%s keeps %s in the default variables instead of a copy' % (name(c, f), oshow(m)), key='copy@%s' % f.qual)
        else:
            rep.ok('own copy', name(c, f), 'the default variables hold only deep copies')
