"""C03: objects passed in by the caller are never modified."""
from .common import *
from ..own import Facts, show as oshow, CALLER

RULES = ['for every public constructor, method, operator, property setter and function: no in-place operation (item or attribute assignment or deletion, '
         'mutating method, in-place operator, inplace=True, out=, mutating library function) may reach an object that belongs to the caller: an argument, '
         'anything inside it, a value of **kwargs (the kwargs dictionary itself is new)',
         'an argument (or a part of it) kept inside a package object must not be reachable by an in-place operation of any public method of that object']
ASSUMPTIONS = ['an external call that is not in the tables of mutating or aliasing library functions changes none of its arguments',
               'numpy slicing, asarray, ravel, reshape and similar give views of the caller\'s array']

# arguments that are containers or arrays when given as a whole
DATA = {'config', 'inputs', 'group', 'var_dict', 'var_group', 'default_variables', 'kwargs', 'arg', 'obj', 'data', 'variables'}


def check(ctx, rep):
    facts = Facts(ctx)
    rep.part('arguments', _direct, ctx, rep, facts, limit=500)
    rep.part('kept arguments', _kept, ctx, rep, facts, limit=300)
    rep.count('public entry points', len(facts.entries))
    rep.count('package functions inlined', len(facts.own.inlined))
    rep.count('calls followed', facts.own.calls)
    rep.floor('public entry points', 60)


def name(c, f):
    return (c.name + '.' if c else '') + f.name


def _direct(ctx, rep, facts):
    for c, f, r in facts.run(rep):
        ctx.analysed.add(name(c, f))
        n = 0
        for m in r.muts:
            root, path = m.node[1], m.node[2]
            if root[0] not in CALLER:
                continue
            if m.op == 'in-place operator' and not path and root[0] == 'arg' and root[1] not in DATA:
                rep.unk('argument', m.where, 'in-place operator on argument %s of %s' % (root[1], name(c, f)))
                continue
            n += 1
            rep.bad('argument', m.where, '%s given to %s is modified: %s' % (oshow(m.node), name(c, f), m.op),
                    key='argument@%s' % m.where.split(' ')[-1])
        if not n:
            ps = [p for p in f.params() if p not in ('self', 'cls')]
            rep.ok('argument', name(c, f), 'no in-place operation reaches %s' % (', '.join(ps) or 'an argument (none)'))


def _kept(ctx, rep, facts):
    muts = facts.mutated_fields()
    seen = set()
    for k, path, node, c, f in facts.captures():
        if (k.name, path, node) in seen:
            continue
        seen.add((k.name, path, node))
        bad = None
        for kk in [k] + [x for x in ctx.classes() if k in x.mro]:
            for mp, m in muts.get(kk.name, {}).items():
                if mp[:len(path)] != path:
                    continue
                rest = mp[len(path):]
                if node[2] and any(isinstance(x, tuple) for x in rest):
                    continue        # attribute of a package object: what is kept here are plain values out of the caller's container
                bad = bad or m
        w = '%s (%s of %s)' % (oshow(node), ''.join('.' + s[1] if isinstance(s, tuple) else '[...]' for s in path), k.name)
        if bad is not None and not _scalar_only(bad, node):
            rep.bad('kept', f.where, '%s is kept by %s and later modified in place: %s' % (w, name(c, f), bad), key='kept@%s' % f.qual)
        else:
            rep.ok('kept', f.where, '%s is kept but not modified' % w)


def _scalar_only(m, node):
    return m.op == 'in-place operator' and not node[2] and node[1][0] == 'arg' and node[1][1] not in DATA
