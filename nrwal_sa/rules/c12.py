"""C12: self-references and circular references are refused at load time."""
import itertools

from .common import *
from .layers import *
from ..engine import exc_ancestors
from ..mtbdd import atom
from ..spec import Spec

RULES = ['the constructor of an equation raises a ValueError whenever its name is in the parsed variables of its text (entailment between the '
         'membership atom and the guards of the raises), and the text family folds to a refusal',
         'the constructor of a config, specialised on reference graphs (all graphs over 3 entries, chains and cycles up to 18 entries, chords, '
         'decoys, all positions), must have no path past the check for a cyclic graph, and parse nothing before the refusal']
ASSUMPTIONS = ['entry names are not names of dictionary methods (those are never treated as variables)']


def check(ctx, rep):
    rep.part('self reference', _self, ctx, rep)
    rep.part('self reference texts', _self_texts, ctx, rep)
    rep.part('circular', _circular, ctx, rep)


def _self(ctx, rep):
    s = ctx.run('Equation', '__init__')
    w = where(s.func)
    nm = ('param', 'name')
    if 'name' not in s.func.params():
        rep.unk('self', w, 'parameter name not found')
        return
    rs = [r for r in s.raises if 'ValueError' in exc_ancestors(r.exc)]
    tot = allr = F
    for r in s.raises:
        allr = bor(allr, r.guard)
        if r in rs:
            tot = bor(tot, r.guard)
    ins = [a for a in atoms_of(allr) if a[0] == 'in' and a[1] == nm and is_vars(a[2])]
    ins += [a for a in atoms_of(allr) if a[0] == 'exists' and any(tm.tmentions(x, nm) for x in atoms_of(a[2]))]
    if not ins:
        if any(tm.tmentions(a, nm) for a in atoms_of(allr)):
            rep.unk('self', w, 'test of the own name not recognised')
        else:
            rep.bad('self', w, 'no error depends on the name of the equation', key='self@none')
        return
    for a in ins:
        if a[0] != 'in':
            rep.unk('self', w, 'test of the own name not recognised')
            continue
        h = atom(a)
        none = given((('isnone', nm), False), (('truth', nm), True))
        v, d = implied(band(h, none), tot, band(h, none))
        v2, d2 = implied(band(h, none), allr, band(h, none))
        if v is True:
            rep.ok('self', w, 'a name among the variables raises a ValueError')
        elif v2 is True:
            rep.bad('self', w, 'a name among the variables raises %s instead of a ValueError' % sorted({r.exc for r in s.raises if r not in rs}), key='self@type')
        elif v is False:
            rep.bad('self', w, 'a name among the variables is accepted (case: %s)' % show(d, 250), key='self@accepted')
        else:
            rep.unk('self', w, 'refusal of the own name not shown (%s)' % show(d, 200))


SELF_TEXTS = [('a', 'a'), ('a', 'a + 1'), ('a', '2 * a'), ('a', 'b * (c - a)'), ('a', 'np.exp(a)'), ('cap_2MW', 'cap_2MW*2'), ('cap2energy', '1 + cap2energy'),
              ('a', 'b**a'), ('a', 'np.minimum(b, a)'), ('turbine_2015', 'x / turbine_2015'), ('a', 'a*a'), ('A', 'a + A')]


def _self_texts(ctx, rep):
    sp = Spec(ctx)
    f = ctx.prog.func('Equation', '__init__')
    w = where(f)
    n = 0
    for name, text in SELF_TEXTS:
        s = sp.run('Equation', '__init__', {f.params()[1]: leaf(tm.const(text)), 'name': leaf(tm.const(name))})
        rep.count('texts naming themselves')
        if s.pc is F:
            n += 1
        elif s.pc is T:
            rep.bad('self-texts', w, 'an equation named %r with the text %r is accepted' % (name, text), key='self-texts')
            return
        else:
            rep.unk('self-texts', w, '%r = %r: %s' % (name, text, show(s.pc, 150)))
    if n:
        rep.ok('self-texts', w, '%d equations naming themselves are refused' % n)


# ---------------------------------------------------------------------------- configs
def cyclic(g):
    state = {}

    def visit(n):
        state[n] = 1
        for m in g[n]:
            if m in g and (state.get(m) == 1 or m not in state and visit(m)):
                return True
        state[n] = 2
        return False
    return any(n not in state and visit(n) for n in g)


SHAPES = ['%s', '%s + 1', '2 * %s', '(%s - 3) / x', 'np.exp(%s)', '%s**2', 'y - %s', 'np.minimum(z, %s)', '1e-5 * %s', '(u*(v + %s))']


MORE_SHAPES = ['lib::cost * %s', '%s + lib::sub::x', 'np.where(x > 1, %s, 0)', '%s/1000', '%s * 1.0E-3', 'a_1 * %s', '%s - 2.5', '-%s', '(%s)', '%s*%s',
               '1 - (1 - %s) * (1 - x)', '%s / (x * 8760)', 'x<%s']


def graph_config(g, k=0):
    out = {}
    if '_shape' in g:
        sh = g['_shape']
        return {n: sh % ((ms[0],) * sh.count('%s')) if ms else 5 for n, ms in g.items() if n != '_shape'}
    for i, (n, ms) in enumerate(g.items()):
        if not ms:
            out[n] = [5, 'z * 2', '3.5', 'lib::entry'][(i + k) % 4]
        else:
            parts = [SHAPES[(i + j + k) % len(SHAPES)] % m for j, m in enumerate(ms)]
            out[n] = ' + '.join(parts)
    return out


def graphs(tier):
    names = ['a', 'b', 'c']
    for bits in itertools.product((0, 1), repeat=9):
        yield {n: [m for j, m in enumerate(names) if bits[3 * i + j]] for i, n in enumerate(names)}
    for n in list(range(4, 13)) + [16, 18]:
        xs = ['x_%d' % i for i in range(n)]
        ring = {x: [xs[(i + 1) % n]] for i, x in enumerate(xs)}
        yield ring
        yield dict(reversed(list(ring.items())))
        # chain ending in a cycle of two, one behind the start
        t = {x: [xs[i + 1]] for i, x in enumerate(xs[:-1])}
        t[xs[-1]] = [xs[-2]]
        yield dict(reversed(list(t.items())))
        # only the last entries are circular, the others independent
        t = {x: [] for x in xs[:-2]}
        t[xs[-2]], t[xs[-1]] = [xs[-1]], [xs[-2]]
        yield t
        # self loop at the end
        t = {x: [] for x in xs}
        t[xs[-1]] = [xs[-1]]
        yield t
        # the cycle goes through the last of several references
        t = {x: [] for x in xs}
        t[xs[0]] = xs[1:]
        t[xs[-1]] = [xs[0]]
        yield t
        # diamonds before the cycle: entries seen on one branch lead to the start on another
        if n >= 5:
            t = {x: [] for x in xs}
            t[xs[0]] = [xs[1], xs[2]]
            t[xs[1]] = [xs[3]]
            t[xs[2]] = [xs[3], xs[4]]
            t[xs[4]] = [xs[0]]
            yield t
            t = dict(t)
            t[xs[4]] = []
            t[xs[3]] = [xs[2]]
            yield t
    # every entry of the cycle written the same way
    for sh in SHAPES + MORE_SHAPES:
        yield {'_shape': sh, 'a': ['a']}
        yield {'_shape': sh, 'a': ['b'], 'b': ['a']}
        yield {'_shape': sh, 'a': [], 'b': ['c'], 'c': ['d'], 'd': ['b']}
    names = ['cap', 'capex', 'capex_2015', 'opex']
    for p in itertools.permutations(names):
        yield {p[0]: [p[1]], p[1]: [p[2]], p[2]: [p[0]], p[3]: [p[0]]}
    if tier != 'quick':
        names = ['a', 'b', 'c', 'd']
        pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
        for bits in itertools.product((0, 1), repeat=12):
            g = {n: [] for n in names}
            for b, (i, j) in zip(bits, pairs):
                if b:
                    g[names[i]].append(names[j])
            yield g


def _circular(ctx, rep):
    sp = Spec(ctx)
    f = ctx.prog.func('NrwalConfig', '__init__')
    w = where(f)
    stop = tuple(ctx.config_stop()) + ('EquationDirectory.__init__',)
    parsers = {q for q in ctx.config_stop() if q not in PREDICATES}
    args = [p for p in f.params() if p != 'self']
    n = und = 0
    late = None
    for k, g in enumerate(graphs(ctx.tier)):
        if not cyclic({n: ms for n, ms in g.items() if n != '_shape'}):
            continue
        cfg = graph_config(g, k)
        rep.count('cyclic reference graphs')
        try:
            s = sp.run('NrwalConfig', '__init__', {args[0]: cfg, 'inputs': tm.cnode(None)}, stop=stop, hint=Spec.equation_hint)
        except RecursionError:
            und += 1
            continue
        if s.pc is F:
            n += 1
            first = min((r.seq for r in s.raises), default=0)
            for ev in s.events:
                if ev.seq < first and (ev.name in parsers or ev.kind == 'new' and ev.name == 'Equation') and late is None:
                    late = (ev, cfg)
            if late:
                break
            continue
        if s.pc is T or not _opaque(s.pc):
            rep.bad('circular', w, 'the circular config %s is not refused before its entries are parsed' % cfg, key='circular@accepted')
            return
        und += 1
        if und <= 3:
            rep.unk('circular', w, '%s: %s' % (cfg, show(s.pc, 200)))
    if n:
        rep.ok('circular', w, '%d circular reference graphs are refused' % n)
    if late:
        rep.bad('circular-late', late[0].where, 'entries are parsed before the circular references of %s are refused' % late[1], key='circular@late')
    elif n:
        rep.ok('circular-late', w, 'nothing is parsed before the refusal')
    if und > 3:
        rep.unk('circular', w, '%d graphs not decided' % und)


def _opaque(pc):
    return any(not free_atom(a) for a in atoms_of(pc))
