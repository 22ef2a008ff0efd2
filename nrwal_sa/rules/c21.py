"""C21: a config pointer takes exactly the named entry of the named file."""
import posixpath

from .c07 import judge, assume, names_in
from . import c07
from .common import *
from ..spec import Spec

RULES = ['the constructor of a config is specialised on sets of config files (file name -> content) in which entries point to entries of other files, '
         'over several directories and chains of pointers; every entry of the resulting config must have the meaning of the text the pointer leads to, '
         'resolved independently', 'pointers that lead nowhere must leave no normal path',
         'the argument of the library constructor must be the equation_directory entry of the config, or else the default']
ASSUMPTIONS = ['os.path functions and the yaml / json readers behave as documented', 'operators on equation objects mean arithmetic on their values (C06)']

R = '/d/conf.yaml'
CWD = '/w'      # the current directory of the analysed program
# (what, files, config given, expected texts of entries or None = refused)
WORLDS = [
    ('pointer to an entry', {R: {'x': './other.yaml::p', 'y': 'a * x'}, '/d/other.yaml': {'p': 'a - b', 'q': 'c'}}, R, {'x': 'a - b', 'y': 'a * (a - b)'}),
    ('pointer to a json file', {'/d/conf.json': {'x': './other.json::q'}, '/d/other.json': {'p': 'a - b', 'q': 'c / d'}}, '/d/conf.json', {'x': 'c / d'}),
    ('pointer to a yml file', {'/d/conf.yml': {'x': './other.yml::q'}, '/d/other.yml': {'p': 'a - b', 'q': 'c / d'}}, '/d/conf.yml', {'x': 'c / d'}),
    ('pointer to a number', {R: {'x': './other.yaml::k', 'y': 'x * a'}, '/d/other.yaml': {'k': 4.5, 'p': 'a'}}, R, {'y': '4.5 * a'}),
    ('pointer without ./', {R: {'x': 'other.yaml::p'}, '/d/other.yaml': {'p': 'a - b'}}, R, {'x': 'a - b'}),
    ('pointer into a sub-directory', {R: {'x': './sub/other.yaml::p'}, '/d/sub/other.yaml': {'p': 'a - b'}, '/d/other.yaml': {'p': 'c'}}, R, {'x': 'a - b'}),
    ('pointer to the parent', {'/d/s/conf.yaml': {'x': '../other.yaml::p'}, '/d/other.yaml': {'p': 'a - b'}, '/d/s/other.yaml': {'p': 'c'}}, '/d/s/conf.yaml',
     {'x': 'a - b'}),
    ('absolute pointer', {R: {'x': '/e/other.yaml::p'}, '/e/other.yaml': {'p': 'a - b'}}, R, {'x': 'a - b'}),
    ('several pointers', {R: {'x': './one.yaml::p', 'y': './two.yaml::p', 'z': './one.yaml::q', 'w': 'x - y'}, '/d/one.yaml': {'p': 'a - b', 'q': 'c'},
                          '/d/two.yaml': {'p': 'd + e', 'q': 'f'}}, R, {'x': 'a - b', 'y': 'd + e', 'z': 'c', 'w': 'a - b - (d + e)'}),
    ('another name in the other file', {R: {'q': './other.yaml::p', 'p': 'c'}, '/d/other.yaml': {'p': 'a - b', 'q': 'd'}}, R, {'q': 'a - b', 'p': 'c'}),
    ('chain of pointers', {R: {'x': './other.yaml::p'}, '/d/other.yaml': {'p': './third.yaml::r'}, '/d/third.yaml': {'r': 'a - b', 'p': 'c'}}, R, {'x': 'a - b'}),
    ('chain over directories', {R: {'x': './s/other.yaml::p'}, '/d/s/other.yaml': {'p': './third.yaml::r'}, '/d/s/third.yaml': {'r': 'a - b'},
                                '/d/third.yaml': {'r': 'c'}}, R, {'x': 'a - b'}),
    ('long chain', {R: {'x': 'f0.yaml::p'}, **{'/d/f%d.yaml' % i: {'p': 'f%d.yaml::p' % (i + 1)} for i in range(5)}, '/d/f5.yaml': {'p': 'a ** b'}}, R,
     {'x': 'a ** b'}),
    ('constants of the other file are not used', {R: {'x': './other.yaml::p'}, '/d/other.yaml': {'p': 'k * a', 'k': 7}}, R, {'x': 'k * a'}),
    ('text of the other file is read in this config', {R: {'x': './other.yaml::p', 'k': 'b + c'}, '/d/other.yaml': {'p': 'k * a', 'k': 7}}, R,
     {'x': '(b + c) * a'}),
    ('relative path of the config', {'/w/s/conf.yaml': {'x': './other.yaml::p'}, '/w/s/other.yaml': {'p': 'a - b'}, '/w/other.yaml': {'p': 'c'}}, 's/conf.yaml',
     {'x': 'a - b'}),
    ('bare name of the config', {'/w/conf.yaml': {'x': './other.yaml::p'}, '/w/other.yaml': {'p': 'a - b'}}, 'conf.yaml', {'x': 'a - b'}),
    ('same file in the current directory', {R: {'x': './other.yaml::p', 'y': 'other.yaml::q'}, '/d/other.yaml': {'p': 'a - b', 'q': 'd'},
                                            '/w/other.yaml': {'p': 'c', 'q': 'e'}}, R, {'x': 'a - b', 'y': 'd'}),
    ('names with parts', {R: {'my_x': './oth_er.yaml::my_long_p', 'my_y': './oth-er.yaml::p_2'}, '/d/oth_er.yaml': {'my_long_p': 'a - b', 'my': 'c', 'p': 'd'},
                          '/d/oth-er.yaml': {'p_2': 'e', 'p': 'f', '2': 'g'}}, R, {'my_x': 'a - b', 'my_y': 'e'}),
    ('same base name in two directories', {R: {'x': './s/other.yaml::p', 'y': './other.yaml::p', 'z': './t/other.yaml::p'}, '/d/s/other.yaml': {'p': 'a - b'},
                                           '/d/other.yaml': {'p': 'c'}, '/d/t/other.yaml': {'p': 'd'}}, R, {'x': 'a - b', 'y': 'c', 'z': 'd'}),
    ('case matters', {R: {'x': './other.yaml::P'}, '/d/other.yaml': {'P': 'a - b', 'p': 'c'}}, R, {'x': 'a - b'}),
    ('no pointers', {R: {'x': 'a - b'}}, R, {'x': 'a - b'}),
    ('missing file', {R: {'x': './nofile.yaml::p'}, '/d/other.yaml': {'p': 'a'}}, R, None),
    ('missing key', {R: {'x': './other.yaml::r'}, '/d/other.yaml': {'p': 'a'}}, R, None),
    ('missing key at the end of a chain', {R: {'x': './other.yaml::p'}, '/d/other.yaml': {'p': './third.yaml::q'}, '/d/third.yaml': {'p': 'a'}}, R, None),
    ('one good and one missing key', {R: {'x': './other.yaml::p', 'y': './other.yaml::r'}, '/d/other.yaml': {'p': 'a'}}, R, None),
    ('missing config', {}, R, None),
    ('pointer times a number', {R: {'x': '2 * ./other.yaml::p'}, '/d/other.yaml': {'p': 'a - b'}}, R, None),
    ('number after a pointer', {R: {'x': './other.yaml::p * 2'}, '/d/other.yaml': {'p': 'a - b', 'p * 2': 'c'}}, R, None),
    ('sum of pointers', {R: {'x': './other.yaml::p + ./other.yaml::q'}, '/d/other.yaml': {'p': 'a - b', 'q': 'c'}}, R, None),
    ('bracketed pointer', {R: {'x': '(./other.yaml::p)'}, '/d/other.yaml': {'p': 'a - b'}}, R, None),
    ('pointer without a key', {R: {'x': './other.yaml'}, '/d/other.yaml': {'p': 'a - b'}}, R, None),
    ('pointer with two keys', {R: {'x': './other.yaml::p::q'}, '/d/other.yaml': {'p': 'a', 'q': 'b'}}, R, None),
    ('only in the current directory', {R: {'x': './other.yaml::p'}, '/w/other.yaml': {'p': 'a'}}, R, None),
    ('key in the other case', {R: {'x': './other.yaml::P'}, '/d/other.yaml': {'p': 'a'}}, R, None),
    ('pointer in a dictionary', {'/w/other.yaml': {'p': 'a - b'}}, {'x': './other.yaml::p'}, None),
    ('absolute pointer in a dictionary', {'/d/other.yaml': {'p': 'a - b'}}, {'x': '/d/other.yaml::p'}, None),
]
DIRS = [
    ('entry equation_directory', {'x': 'a', 'equation_directory': '/my/lib'}, '/my/lib'),
    ('no entry', {'x': 'a'}, None),
    ('only in a pointed file', {'x': './other.yaml::p'}, None),
    ('another in a pointed file', {'x': './other.yaml::p', 'equation_directory': '/my/lib'}, '/my/lib'),
]


def check(ctx, rep):
    c07.TRUTHY[0] = not any(c.find(m) for n in ('Equation', 'EquationGroup', 'EquationDirectory') for c in [ctx.prog.cls(n)] for m in ('__bool__', '__len__'))
    sp = Spec(ctx)
    rep.part('pointers', _pointers, ctx, rep, sp, limit=300)
    rep.part('library', _library, ctx, rep, sp, limit=150)
    rep.floor('sets of config files', 25)


UNKNOWN = [False]    # a path was asked for that is not known here


def stubs(files):
    def norm(x):
        return posixpath.normpath(posixpath.join(CWD, x))
    files = {norm(k): v for k, v in files.items()}

    def one(a, i=0):
        if len(a) > i and is_leaf(a[i]) and tm.is_str_const(a[i].leaf):
            return a[i].leaf[2]
        return None

    def path_fn(fn):
        def g(a):
            xs = [one(a, i) for i in range(len(a))]
            if any(x is None for x in xs):
                return None
            return tm.cnode(fn(*xs))
        return g

    def exists(a):
        x = one(a)
        UNKNOWN[0] |= x is None
        return None if x is None else (T if norm(x) in files else F)

    def opened(a):
        x = one(a)
        UNKNOWN[0] |= x is None
        if x is not None and norm(x) not in files:
            return 'FileNotFoundError'
        return None

    def content(t):
        while t[0] == 'mcall' and t[2] in ('read', '__enter__') or t[0] in ('enter', 'str'):
            t = t[1]
        if t[0] == 'call' and t[1] in ('open', 'io.open') and t[2] and tm.is_str_const(t[2][0]):
            return files.get(norm(t[2][0][2]))
        return None

    def load(a):
        return content(a[0].leaf) if a and is_leaf(a[0]) else None
    out = {'os.path.exists': exists, 'os.path.isfile': exists, 'open': opened, 'os.path.abspath': path_fn(norm),
           'os.path.realpath': path_fn(norm), 'os.path.normpath': path_fn(posixpath.normpath), 'os.path.dirname': path_fn(posixpath.dirname),
           'os.path.join': path_fn(posixpath.join), 'os.path.basename': path_fn(posixpath.basename), 'os.path.isabs': lambda a: None if one(a) is None else (T if one(a).startswith('/') else F),
           'os.getcwd': lambda a: tm.cnode(CWD)}
    for n in ('json.load', 'json.loads', 'yaml.safe_load', 'yaml.load'):
        out[n] = load
    return {k: v for k, v in out.items() if v}


def run(ctx, sp, files, given):
    f = ctx.prog.func('NrwalConfig', '__init__')
    ps = f.params()
    s = sp.run('NrwalConfig', '__init__', {ps[1]: dict(given) if isinstance(given, dict) else tm.cnode(given), 'inputs': tm.cnode(None)},
               stop=tuple(PREDICATES) + ('EquationDirectory.__init__',), hint=sp.equation_hint, raise_hint=sp.library(()), ext=stubs(files))
    d = s.fz(s.state.fields.get((SELF, ctx.store_attr('NrwalConfig')), leaf(('undef',))))
    return s, d


def _pointers(ctx, rep, sp):
    w = where(ctx.prog.func('NrwalConfig', '__init__'))
    n = m = 0
    for what, files, given, want in WORLDS:
        UNKNOWN[0] = False
        s, d = run(ctx, sp, files, given)
        rep.count('sets of config files')
        if UNKNOWN[0]:
            rep.unk('pointer', w, '%s: a path is not known' % what)
            continue
        names = set()
        for c in list(files.values()):
            for x in c.values():
                names |= names_in(str(x))
        g = assume(s.pc, names)
        pc = restrict(s.pc, g)
        if want is None:
            if band(pc, g) is F:
                m += 1
            elif pc is T:
                rep.bad('refused', w, '%s: %s is accepted' % (what, given if isinstance(given, dict) else files.get(given)), key='refused@' + what)
            else:
                rep.unk('refused', w, '%s: %s' % (what, show(pc, 200)))
            continue
        for k, src in want.items():
            v = bind(d, lambda t: tm.lookup(t, tm.const(k), leaf(('missing',))))
            r = judge(rep, 'pointer', '%s [%s]' % (w, what), src, v, s.pc, names)
            n += r is True
    if n:
        rep.ok('pointer', w, '%d entries have the meaning of the text their pointers lead to' % n)
    if m:
        rep.ok('refused', w, '%d pointers that lead nowhere are refused' % m)


def _library(ctx, rep, sp):
    w = where(ctx.prog.func('NrwalConfig', '__init__'))
    for what, cfg, want in DIRS:
        files = {R: cfg, '/d/other.yaml': {'p': 'a', 'equation_directory': '/other/lib'}}
        for given in (R, cfg) if 'pointed' not in what else (R,):
            s, _ = run(ctx, sp, files, given)
            rep.count('configs with a library')
            evs = [ev for ev in s.events if ev.kind == 'new' and ev.name == 'EquationDirectory']
            if s.pc is F or not evs:
                rep.unk('library', w, '%s: no library object' % what)
                continue
            for ev in evs:
                a = ev.kw.get([p for p in ctx.prog.func('EquationDirectory', '__init__').params() if p != 'self'][0])
                ls = leaves(a) if a is not None else []
                for t in ls:
                    while t[0] in ('dcopy', 'scopy', 'str'):
                        t = t[1]
                    if want is not None:
                        ok = t == tm.const(want) if tm.is_const(t) else False if _default(t) else None
                    elif tm.is_const(t):
                        ok = False if t in (tm.const('/my/lib'), tm.const('/other/lib'), tm.NONE) else 'analysis_library' in str(t[2])
                    else:
                        ok = True if _default(t) else None
                    rep.judge(ok, 'library', w, '%s: %s' % (what, show(t, 100)), '%s: the library is %s' % (what, show(t, 100)))


def _default(t):
    return 'analysis_library' in repr(t) or 'DEFAULT_DIR' in repr(t) or 'NRWAL_ANALYSIS_DIR' in repr(t)
