"""C16: a directory loads exactly its equation files and non-empty subdirectories."""
from .common import *
from .layers import MISSING
from ..engine import exc_ancestors
from ..mtbdd import atom, ite
from ..spec import Spec

RULES = ['the constructor of a directory is specialised on directory listings (every name alone as file, empty and non-empty directory, and all '
         'names together in several orders); which names are entries of the resulting mapping, under which key, of which class and from which path '
         'is read off the folded summary and compared with the table the property states',
         'assuming that loading a file fails, the folded summary must have no normal path']
ASSUMPTIONS = ['os.listdir returns the names in a directory, os.path.isdir tells directories from files']

FILES = ['a.yaml', 'b.yml', 'c.json', 'd.e.yaml', '_f.yaml', 'g__h.yml', 'variables.yaml', 'variables.yml', 'variables.json', 'my_variables.yaml', 'variables_2.json',
         'Variables.yaml', '.hidden.yaml', '__init__.yaml', '.variables.yaml', '__variables.json', 'notes.txt', 'README', 'data.csv', 'a.yaml.bak', 'a.yaml~',
         'module.py', '__init__.py', 'variables', 'variables.txt', 'yaml', 'x.jsonl', 'cost_2015.yaml', 'turbine_3MW.json', 'x_.yaml', 'config.yaml',
         'substructure-costs.yml', 'with space.yaml', 'm.xyaml', 'i.j.k.json', 'UPPER.yaml', 'NOTES.JSON', 'X.YAML']
DIRS = ['sub', 'sub_2015', 'v1.2', '.git', '__pycache__', '_private', 'test', 'nested.yaml', 'variables.yaml', 'a b', 'x__', '.ipynb_checkpoints', '1']


def expected(name, kind):
    """(key, class) or None"""
    import os
    if name.startswith(('.', '__')):
        return None
    if kind in ('dir', 'empty'):
        return (name, 'EquationDirectory') if kind == 'dir' else None
    if not name.endswith(('.json', '.yml', '.yaml')):
        return None
    stem = os.path.splitext(name)[0]
    return stem, 'VariableGroup' if stem == 'variables' else 'EquationGroup'


def check(ctx, rep):
    rep.part('one by one', _single, ctx, rep, limit=200)
    rep.part('together', _together, ctx, rep, limit=200)


class World:
    """assumptions about the file system: names in the directory and their kinds"""
    def __init__(self, ctx, listing, fail=None, link=False):
        self.ctx, self.listing, self.fail, self.link = ctx, listing, fail, link
        f = ctx.prog.func('EquationDirectory', '__init__')
        self.f = f
        self.root = ('param', [p for p in f.params() if p != 'self'][0])

    def name_of(self, t):
        while t[0] in ('str', 'dcopy') or t[0] == 'call' and t[1] in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.fspath') and t[2]:
            t = t[1] if t[0] in ('str', 'dcopy') else t[2][0]
        if t[0] == 'call' and t[1] == 'os.path.join' and len(t[2]) == 2 and tm.is_str_const(t[2][1]) and self.is_root(t[2][0]):
            return t[2][1][2]
        if t[0] == 'fmt' and len(t[1]) == 3 and not isinstance(t[1][0], str) and self.is_root(t[1][0]) and t[1][1] == '/':
            return None
        return None

    def is_root(self, t):
        while t[0] in ('str', 'dcopy') or t[0] == 'call' and t[1] in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath') and t[2]:
            t = t[1] if t[0] in ('str', 'dcopy') else t[2][0]
        return t == self.root

    def stubs(self):
        def listdir(a):
            if len(a) == 1 and is_leaf(a[0]) and self.is_root(a[0].leaf):
                return [tm.cnode(n) for n in self.listing]
            return None

        def test(kinds):
            def g(a):
                if len(a) == 1 and is_leaf(a[0]):
                    n = self.name_of(a[0].leaf)
                    if n is not None:
                        return T if self.listing.get(n) in kinds else F
                return None
            return g
        return {'os.listdir': listdir, 'os.path.isdir': test(('dir', 'empty')), 'os.path.isfile': test(('file',)), 'os.path.exists': test(('dir', 'empty', 'file')),
                'os.path.islink': lambda a: (T if self.link else F) if len(a) == 1 and is_leaf(a[0]) and self.name_of(a[0].leaf) is not None else None}

    def raise_hint(self, types, sig):
        if types is None:
            return None
        hit = [t for t in sig if t[0] == 'new' and t[1] in ('EquationGroup', 'VariableGroup', 'EquationDirectory')]
        if self.fail is not None:
            if any(self.fail == self.arg(t) for t in hit):
                return T if set(types) & {'Exception', 'BaseException'} else F
        return F

    def arg(self, t):
        for k, v in t[2]:
            n = self.name_of(v)
            if n is not None:
                return n
        return None

    def run(self, sp):
        return sp.run('EquationDirectory', '__init__', {}, raise_hint=self.raise_hint, ext=self.stubs())

    def store(self, s):
        st = self.ctx.store_attr('EquationDirectory')
        v = s.fz(s.state.fields.get((SELF, st), leaf(('undef',))))
        return self.settle(v)

    def settle(self, v):
        """decide whether a sub-directory is empty"""
        g = T
        for a in atoms_of(v):
            r = self.nonempty(a)
            if r is not None:
                g = band(g, atom(a) if r else bnot(atom(a)))
        return restrict(v, g)

    def nonempty(self, a):
        ns = set()
        for t in _subterms(a):
            if t[0] == 'new' and t[1] == 'EquationDirectory':
                ns.add(self.arg(t))
        if len(ns) != 1 or None in ns:
            return None
        full = self.listing.get(next(iter(ns))) == 'dir'
        st = self.ctx.store_attr('EquationDirectory')
        if a[0] == 'truth':
            t = a[1]
            while t[0] in ('view', 'scopy', 'dcopy', 'sorted', 'setof'):
                t = t[2] if t[0] == 'view' else t[1]
            return full if t[0] == 'new' or t[0] == 'attr' and t[2] == st else None
        if a[0] == 'exists':
            # some entry with a further condition: for a non-empty directory both ways are possible
            return False if not full else None
        if a[0] in ('lt', 'eq') and any(tm.is_const(x) and x[2] == 0 for x in a[1:] if isinstance(x, tuple)):
            return full if a[0] == 'lt' else not full
        return None


def _subterms(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.append(t)
        for x in t:
            _subterms(x, out)
    return out


def verdict(world, v, rep, w, where_):
    """compare the mapping with the table"""
    want = {}
    for n, k in world.listing.items():
        e = expected(n, k)
        if e:
            want.setdefault(e[0], []).append((n, e[1]))
    probe = set(want)
    import os
    for n in world.listing:
        probe |= {n, os.path.splitext(n)[0], n.split('.')[0], n.lower()}
    good = True
    for key in sorted(probe - {''}):
        got = bind(v, lambda t: tm.lookup(t, tm.const(key), leaf(MISSING)))
        got = world.settle(got)
        ls = leaves(got)
        if key not in want:
            if ls == [MISSING]:
                continue
            if MISSING not in ls and all(t[0] == 'new' or tm.is_const(t) for t in ls):
                rep.bad('nothing-else', w, '%s contains an entry %r (%s)' % (where_, key, show(ls[0], 120)), key='nothing-else')
                return None
            rep.unk('nothing-else', w, '%s: entry %r: %s' % (where_, key, show(got, 150)))
            good = False
            continue
        for t in ls:
            if t == MISSING:
                if len(ls) == 1:
                    rep.bad('every-file', w, '%s: %r is not loaded (no entry %r)' % (where_, want[key][0][0], key), key='every-file')
                    return None
                ex = [a for a in atoms_of(got) if a[0] == 'exists' and any(x[0] == 'isinst' for x in atoms_of(a[2]))]
                if ex and restrict(got, band(*[bnot(atom(a)) for a in atoms_of(got)])) is leaf(MISSING):
                    rep.bad('every-file', w, '%s: %r is only loaded if its content passes a further test (%s)' % (where_, want[key][0][0], show(atom(ex[0]), 150)),
                            key='every-file')
                    return None
                fs = [a for a in atoms_of(got) if any(x[0] == 'call' and str(x[1]).startswith('os.') for x in _subterms(a))]
                if fs and len(fs) == len(atoms_of(got)):
                    rep.bad('every-file', w, '%s: %r is only loaded if %s' % (where_, want[key][0][0], show(atom(fs[0]), 150)), key='every-file')
                    return None
                rep.unk('every-file', w, '%s: %s' % (where_, show(got, 150)))
                good = False
            elif t[0] == 'new':
                n = world.arg(t)
                if n is None:
                    rep.unk('every-file', w, '%s: %r is loaded from %s' % (where_, key, show(t, 120)))
                    good = False
                elif (n, t[1]) not in want[key]:
                    rep.bad('kind', w, '%s: the entry %r is a %s from %r instead of a %s from %r' % (where_, key, t[1], n, want[key][-1][1], want[key][-1][0]),
                            key='kind')
                    return None
            else:
                rep.unk('kind', w, '%s: entry %r: %s' % (where_, key, show(t, 150)))
                good = False
    return good


def _known_keys(v):
    """every key stored is a constant"""
    for t in leaves(v):
        if t[0] != 'dict':
            return False
        for op in tm.dict_ops(t):
            if op[0] != 'set' or not is_leaf(op[3]) or not tm.is_const(op[3].leaf):
                return False
    return True


def _single(ctx, rep):
    sp = Spec(ctx)
    w = where(ctx.prog.func('EquationDirectory', '__init__'))
    n = nf = 0
    for name, kind, link in [(x, 'file', False) for x in FILES] + [(x, k, False) for x in DIRS for k in ('dir', 'empty')] + \
            [('a.yaml', 'file', True), ('variables.json', 'file', True), ('sub', 'dir', True)]:
        wd = World(ctx, {name: kind}, link=link)
        s = wd.run(sp)
        rep.count('listings with one name')
        v = wd.store(s)
        what = 'a directory with only the %s%s %r' % ('linked ' if link else '', {'file': 'file', 'dir': 'directory', 'empty': 'empty directory'}[kind], name)
        if s.pc is F:
            rep.bad('loads', w, '%s cannot be loaded (%s)' % (what, ', '.join(sorted({r.exc for r in s.raises}))), key='loads')
            return
        if not _known_keys(v):
            rep.unk('entries', w, '%s: %s' % (what, show(v, 150)))
            continue
        r = verdict(wd, v, rep, w, what)
        if r is None:
            return
        n += bool(r)
        if expected(name, kind) and kind == 'file':
            wf = World(ctx, {name: kind}, fail=name)
            s = wf.run(sp)
            rep.count('files that cannot be parsed')
            if s.pc is F and all('Exception' in exc_ancestors(x.exc) for x in s.raises):
                nf += 1
            elif s.pc is T or not any(a[0] == 'raises' for a in atoms_of(s.pc)):
                rep.bad('unparsable', w, 'a directory whose file %r cannot be parsed is loaded' % name, key='unparsable')
                return
            else:
                rep.unk('unparsable', w, '%r: %s' % (name, show(s.pc, 150)))
    if n:
        rep.ok('one by one', w, '%d listings of one name give exactly the stated entry' % n)
    if nf:
        rep.ok('unparsable', w, '%d unparsable files raise an error' % nf)


def _together(ctx, rep):
    sp = Spec(ctx)
    w = where(ctx.prog.func('EquationDirectory', '__init__'))
    # one file per key
    allf, keys = [], set()
    for x in FILES:
        e = expected(x, 'file')
        if e and e[0] in keys:
            continue
        if e:
            keys.add(e[0])
        allf.append((x, 'file'))
    dirs = []
    for i, x in enumerate(DIRS):
        if x in keys or x in dict(allf):
            continue
        dirs.append((x, ('dir', 'empty')[i % 3 == 2]))
    orders = [allf + dirs, dirs + allf, list(reversed(allf + dirs)), sorted(allf + dirs), [('b.yaml', 'file'), ('sub', 'dir'), ('variables.yaml', 'file'), ('a.json', 'file')],
              [('variables.yml', 'file'), ('a.yml', 'file'), ('z', 'dir'), ('e', 'empty'), ('zz', 'dir'), ('.x', 'dir'), ('k.yml', 'file')]]
    n = 0
    for o in orders:
        wd = World(ctx, dict(o))
        s = wd.run(sp)
        rep.count('listings with many names')
        v = wd.store(s)
        what = 'a directory with the names %s' % ', '.join(x for x, _ in o[:4]) + (', ...' if len(o) > 4 else '')
        if s.pc is F:
            rep.bad('loads', w, '%s cannot be loaded (%s)' % (what, ', '.join(sorted({r.exc for r in s.raises}))), key='loads')
            return
        if not _known_keys(v):
            rep.unk('entries', w, '%s: %s' % (what, show(v, 150)))
            continue
        r = verdict(wd, v, rep, w, what)
        if r is None:
            return
        n += bool(r)
    if n:
        rep.ok('together', w, '%d listings of many names give exactly the stated entries' % n)
