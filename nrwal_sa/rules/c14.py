"""C14: results do not depend on hidden shared state, order of use or environment."""
from .common import *
from ..own import Facts, show as oshow, CALLER, public
from ..order import Order, LOGGERS

RULES = ['no function changes or rebinds a module-level object, a class attribute, a function attribute or a mutable default argument (ownership analysis of '
         'every function, calls followed); no mutable default argument is kept in an object that changes it',
         'no cached function (lru_cache, cache, cached_property) may read state that other methods change, read files, or hand out a mutable object that is '
         'shared between calls; no decorator keeps results in a closure',
         'no value of a random generator, the clock, the environment or the process may reach anything but a log message',
         'no call changes process-wide settings',
         'a directory listing or the order of a set is sorted before it can be returned, stored or decide the order of entries (order taint analysis)']
ASSUMPTIONS = ['log messages are not results']

SOURCES = ('random.', 'numpy.random.', 'time.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'socket.', 'platform.', 'getpass.',
           'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'datetime.now', 'os.getcwd', 'os.getlogin',
           'os.path.getmtime', 'os.path.getatime', 'os.path.getctime', 'os.stat', 'os.path.expandvars', 'os.path.expanduser', 'threading.get_ident',
           'threading.current_thread', 'sys.argv', 'locale.', 'pandas.Timestamp.now', 'pandas.Timestamp.today', 'tempfile.', 'gc.', 'os.cpu_count',
           'multiprocessing.', 'psutil.', 'resource.', 'os.times', 'sys.getrefcount', 'os.getppid', 'os.getuid')
NOT_SOURCES = ('time.sleep', 'random.seed', 'numpy.random.seed', 'locale.setlocale', 'numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random')
SEEDED = ('numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random')
SETTERS = {'numpy.seterr', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.random.seed', 'random.seed', 'os.chdir', 'sys.setrecursionlimit', 'os.putenv',
           'locale.setlocale', 'pandas.set_option', 'logging.disable', 'os.environ.setdefault', 'os.environ.update', 'os.environ.pop', 'os.umask',
           'sys.path.append', 'sys.path.insert', 'warnings.simplefilter', 'warnings.filterwarnings', 'decimal.setcontext', 'socket.setdefaulttimeout',
           'yaml.add_constructor', 'yaml.add_representer', 'yaml.SafeLoader.add_constructor', 'yaml.SafeLoader.add_implicit_resolver', 'yaml.add_implicit_resolver',
           'numpy.seterrcall', 'pandas.reset_option', 'sys.modules.pop', 'os.unsetenv', 'time.tzset'}
SCOPED = {'warnings.simplefilter': 'warnings.catch_warnings', 'warnings.filterwarnings': 'warnings.catch_warnings'}
CACHES = ('lru_cache', 'cache', 'cached', 'memoize', 'memoized')


def check(ctx, rep):
    facts = Facts(ctx, private=True)
    rep.part('shared state', _state, ctx, rep, facts, limit=500)
    rep.part('caches', _caches, ctx, rep, facts, limit=200)
    rep.part('decorators', _closures, ctx, rep)
    rep.part('sources', _sources, ctx, rep)
    rep.part('settings', _settings, ctx, rep)
    rep.part('order', _order, ctx, rep)
    rep.count('functions analysed', len({f.qual for _, f in facts.entries}))
    rep.count('calls followed', facts.own.calls)
    rep.floor('functions analysed', 70)


def name(c, f):
    return (c.name + '.' if c else '') + f.name


# -- shared state --------------------------------------------------------------
def _state(ctx, rep, facts):
    bad = set()
    for c, f, r in facts.run(rep):
        ctx.analysed.add(name(c, f))
        for m in r.muts:
            root = m.node[1]
            if root[0] in ('glob', 'cls', 'dflt') and (root, m.where) not in bad:
                what = {'glob': 'module-level object %s' % root[-1], 'cls': 'class attribute %s.%s' % root[1:3] if root[0] == 'cls' else '',
                        'dflt': 'default argument %s of %s' % (root[-1], root[1])}[root[0]]
                if m.op == 'rebound' and _lazy_constant(ctx, m):
                    rep.unk('shared state', m.where, '%s is computed once' % what)
                    continue
                bad.add((root, m.where))
                rep.bad('shared state', m.where, '%s is changed (%s): it is shared by everything in the process' % (what, m.op),
                        key='state@%s' % (root[-1],))
        rep.ok('shared state', name(c, f), 'changes no module, class or default-argument object')
    # mutable defaults kept in objects that change them
    muts = facts.mutated_fields()
    for c, f, r in facts.run():
        for (n, sel) in list(r.state.heap):
            k = r.ncls.get(n)
            if k is None or not (isinstance(sel, tuple) and sel[0] == '.'):
                continue
            for p, m in r.reach(r.get(n, sel), 3):
                if m[0] != 'r' or m[1][0] not in ('dflt', 'cls', 'glob') or m[1][-1] == 'globals()':
                    continue
                path = (sel,) + p
                hits = [mm for kk in ctx.classes() if k in kk.mro or kk is k for mp, mm in muts.get(kk.name, {}).items() if mp[:len(path)] == path]
                if hits:
                    rep.bad('shared state', f.where, 'objects of %s share %s (%s) and change it: %s' % (k.name, oshow(m), sel[1], hits[0]), key='kept@%s' % (m[1][-1],))
                elif m[1][0] == 'dflt':
                    rep.unk('shared state', f.where, 'default argument %s is kept in %s.%s' % (m[1][-1], k.name, sel[1]))
        if public(f.name):
            for n in r.ret:
                if n[0] == 'r' and n[1][0] == 'dflt' and not n[2]:
                    rep.bad('shared state', f.where, '%s hands out its mutable default argument %s' % (name(c, f), n[1][-1]), key='dflt@%s' % n[1][-1])
                elif n[0] == 'r' and n[1][0] in ('glob', 'cls') and n[1][-1] != 'globals()' and not n[2] and _mutable_const(ctx, n[1]):
                    rep.bad('shared state', f.where, '%s hands out the shared mutable object %s' % (name(c, f), n[1][-1]), key='handout@%s' % n[1][-1])


def _mutable_const(ctx, root):
    if root[0] == 'cls':
        c = ctx.prog.cls(root[1])
        k = c.find_const(root[2])
        xs = [k[1]] if k else []
    else:
        m = ctx.prog.modules.get(root[1])
        xs = m.assigns.get(root[2], []) if m else []
    return any(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or
               isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('dict', 'list', 'set', 'OrderedDict', 'defaultdict') for x in xs)


def _lazy_constant(ctx, m):
    """a module variable set once, from None, to something that depends on nothing but constants"""
    root = m.node[1]
    if root[0] != 'glob' or root[1] not in ctx.prog.modules:
        return False
    mod = ctx.prog.modules[root[1]]
    vals = mod.assigns.get(root[2], [])
    if not (len(vals) == 1 and isinstance(vals[0], ast.Constant) and vals[0].value is None):
        return False
    params = set(m.func.params()) | {a.arg for a in (m.func.node.args.vararg, m.func.node.args.kwarg) if a}
    for n in ast.walk(m.func.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == root[2] for t in n.targets):
            for x in ast.walk(n.value):
                if isinstance(x, ast.Name) and (x.id in params or x.id in {y.id for z in ast.walk(m.func.node) if isinstance(z, ast.Assign)
                                                                          for y in z.targets if isinstance(y, ast.Name)} - {root[2]}):
                    return False
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'open':
                    return False
    return True


# -- caches --------------------------------------------------------------------
def _caches(ctx, rep, facts):
    n = 0
    changed = {}
    for c, f, r in facts.run():
        if c is None or f.name == '__init__':
            continue
        for m in r.muts:
            if m.node[1][0] == 'self':
                attr = m.node[2][0][1] if m.node[2] and isinstance(m.node[2][0], tuple) else \
                    m.op.split(' ')[1] if m.op.startswith('attribute ') and m.op.endswith(' set') else None
                if attr:
                    changed.setdefault(attr, m)
    for a, w in _written(ctx).items():
        changed.setdefault(a, w)
    for c, f in facts.entries:
        for d in f.node.decorator_list:
            base = d.func if isinstance(d, ast.Call) else d
            nm = base.attr if isinstance(base, ast.Attribute) else base.id if isinstance(base, ast.Name) else ''
            if nm not in CACHES + ('cached_property',):
                continue
            n += 1
            reads = _reads(ctx, f)
            hit = [a for a in reads if a in changed]
            if f.kind not in ('static', 'class', 'func') and hit:
                rep.bad('cache', f.where, '%s is cached but depends on %s, which changes: %s' % (name(c, f), hit[0], changed[hit[0]]), key='cache@%s' % f.qual)
                continue
            fs = _files(ctx, f)
            if fs:
                rep.bad('cache', f.where, '%s is cached but reads files (%s)' % (name(c, f), fs), key='cache@%s' % f.qual)
                continue
            r = facts.own.run(f, c)
            objs = [x for x in r.ret if _changeable(r, x)]
            if objs and nm != 'cached_property':
                rep.bad('cache', f.where, '%s is cached and hands out one mutable object to every caller (%s)' % (name(c, f), oshow(objs[0])), key='cache@%s' % f.qual)
            else:
                rep.ok('cache', f.where, 'cached value depends on nothing that changes')
    rep.count('cached functions', n)


def _changeable(r, x, depth=0):
    if x[0] not in ('r', 'a') or x[0] == 'r' and x[1][0] in ('self',) + CALLER:
        return False
    if x[0] == 'a' and x[2] == 'tuple':
        return depth < 4 and any(_changeable(r, m, depth + 1) for (n, sel) in r.state.heap if n == x for m in r.get(n, sel))
    return True


def _written(ctx):
    """attributes changed on any object outside a constructor"""
    out = {}
    for f in ctx.prog.all_funcs():
        if f.name == '__init__':
            continue
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                t = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                    and n.func.attr in ('append', 'add', 'update', 'setdefault', 'pop', 'clear', 'extend', 'insert', 'remove', 'popitem'):
                t = n.func.value
            if t is not None:
                out.setdefault(t.attr, '%s:%s %s' % (f.module.rel, n.lineno, f.qual))
    return out


def _reads(ctx, f, seen=None):
    """attributes of self read by a function, calls on self followed"""
    seen = seen if seen is not None else set()
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
            g = f.cls.find(n.attr) if f.cls else None
            if g is not None:
                out |= _reads(ctx, g, seen)
            else:
                out.add(n.attr)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ('values', 'items', 'keys'):
            for c in ctx.classes():
                g = c.find(n.attr)
                if g is not None:
                    out |= _reads(ctx, g, seen)
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == 'self' and f.cls:
            g = f.cls.find('__getitem__')
            if g is not None:
                out |= _reads(ctx, g, seen)
    return out


def _files(ctx, f, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if f in seen or depth > 5:
        return None
    seen.add(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            d = dotted(ctx.prog, f.module, f.node, n.func)
            if isinstance(d, str) and (d in ('open', 'os.listdir', 'os.scandir', 'os.walk', 'glob.glob') or d.startswith(('os.path.exists', 'os.path.isdir', 'os.path.isfile', 'pandas.read_'))):
                return d
            if isinstance(d, Func):
                x = _files(ctx, d, depth + 1, seen)
                if x:
                    return x
            elif isinstance(d, Cls) and d.find('__init__'):
                x = _files(ctx, d.find('__init__'), depth + 1, seen)
                if x:
                    return x
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls') and f.cls:
                g = f.cls.find(n.func.attr)
                x = _files(ctx, g, depth + 1, seen) if g else None
                if x:
                    return x
    return None


def _closures(ctx, rep):
    """decorators of the package that keep something between calls"""
    used = set()
    for f in ctx.prog.all_funcs():
        for d in f.node.decorator_list:
            x = dotted(ctx.prog, f.module, None, d.func if isinstance(d, ast.Call) else d)
            if isinstance(x, Func):
                used.add(x)
    for m in ctx.prog.modules.values():
        for vs in m.assigns.values():
            for v in vs:
                if isinstance(v, ast.Call):
                    x = dotted(ctx.prog, m, None, v.func)
                    if isinstance(x, Func):
                        used.add(x)
    for f in used:
        cells = {}
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        cells[t.id] = s.value
        for g in ast.walk(f.node):
            if g is f.node or not isinstance(g, (ast.FunctionDef, ast.Lambda)):
                continue
            local = {a.arg for a in g.args.args}
            if isinstance(g, ast.FunctionDef):
                own = {t.id for s in ast.walk(g) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                nl = {x for s in ast.walk(g) if isinstance(s, ast.Nonlocal) for x in s.names}
                local |= own - nl
            for s in ast.walk(g):
                tgt = None
                if isinstance(s, ast.Nonlocal):
                    tgt = s.names[0]
                elif isinstance(s, ast.Subscript) and isinstance(s.ctx, (ast.Store, ast.Del)) and isinstance(s.value, ast.Name):
                    tgt = s.value.id
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) \
                        and s.func.attr in ('append', 'add', 'update', 'setdefault', 'pop', 'clear', 'extend', 'insert', 'remove'):
                    tgt = s.func.value.id
                if tgt and tgt not in local and tgt in {k for k in cells} and not _inside(cells[tgt], g):
                    rep.bad('shared state', '%s:%s %s' % (f.module.rel, s.lineno if hasattr(s, 'lineno') else f.node.lineno, f.qual),
                            'the decorator keeps %s between calls of the functions it wraps' % tgt, key='closure@%s' % f.qual)
        rep.ok('shared state', f.where, 'wrapper')


def _inside(node, g):
    return any(node is x for x in ast.walk(g))


# -- sources -------------------------------------------------------------------
def _sources(ctx, rep):
    n = 0
    for m in ctx.prog.modules.values():
        parents = {}
        for p in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(p):
                parents[ch] = p
        for cls, fn, node in _exprs(m):
            d = None
            if isinstance(node, (ast.Attribute, ast.Name)) and isinstance(getattr(node, 'ctx', None), ast.Load) \
                    and not isinstance(parents.get(node), ast.Attribute):
                d = dotted(ctx.prog, m, None, node) if not (isinstance(node, ast.Name) and fn is not None and _local(fn, node.id)) else None
            n += 1
            if not isinstance(d, str):
                continue
            call = parents.get(node)
            if d in SETTERS or d in SEEDED and isinstance(call, ast.Call) and call.func is node and call.args:
                continue
            src = d.startswith(SOURCES) and d not in NOT_SOURCES or d in SEEDED
            w = '%s:%s %s' % (m.rel, node.lineno, fname(cls, fn))
            if d in ('id', 'hash') and isinstance(call, ast.Call) and call.func is node:
                if fn is not None and fn.name in ('__hash__', '__eq__'):
                    continue
                rep.unk('source', w, '%s() is used' % d)
                continue
            if not src:
                continue
            if _import_only(node, parents):
                continue
            if _only_logged(node, parents, fn, 0):
                rep.ok('source', w, '%s goes to a log message only' % d)
            else:
                rep.bad('source', w, '%s can influence results' % d, key='source@%s' % d)
    rep.count('names resolved', n)
    rep.ok('source', 'package', '%d names resolved, none of a random, clock or environment source reaches a result' % n) if not any(
        v.rule == 'source' for v in rep.violations) else None


def _exprs(m):
    from ..astq import _walk
    for _, cls, fn, node in _walk(m, None, None, m.tree):
        yield cls, fn, node


def _local(fn, name_):
    from ..astq import scope
    sc = scope(fn)
    return name_ in sc.params or name_ in sc.assigned


def _import_only(node, parents):
    return isinstance(parents.get(node), (ast.Import, ast.ImportFrom, ast.alias))


def _only_logged(node, parents, fn, depth):
    """the value of an expression goes nowhere but into log messages"""
    if depth > 6:
        return False
    p, ch = parents.get(node), node
    while p is not None:
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in LOGGERS and ch is not p.func:
            return True
        if isinstance(p, ast.Expr):
            # bare expression: value dropped (calls with effects on other objects excluded)
            return not (isinstance(ch, ast.Call) and isinstance(ch.func, ast.Attribute) and any(node is x for a in ch.args for x in ast.walk(a)))
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if not all(isinstance(t, ast.Name) for t in ts) or fn is None:
                return False
            for t in ts:
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load):
                        if not _only_logged(x, parents, fn, depth + 1):
                            return False
            return True
        if isinstance(p, ast.Raise):
            return False
        if isinstance(p, (ast.Return, ast.If, ast.While, ast.For, ast.comprehension, ast.FunctionDef, ast.ClassDef, ast.Module, ast.Assert, ast.With)):
            if isinstance(p, ast.If) and ch is p.test and all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
                                                               and s.value.func.attr in LOGGERS for s in p.body + p.orelse):
                return True
            return False
        p, ch = parents.get(p), p
    return False


# -- settings --------------------------------------------------------------------
def _settings(ctx, rep):
    n = 0
    for m in ctx.prog.modules.values():
        parents = {}
        for p in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(p):
                parents[ch] = p
        for cls, fn, node in _exprs(m):
            w = '%s:%s %s' % (m.rel, getattr(node, 'lineno', '?'), fname(cls, fn))
            if isinstance(node, ast.Call):
                n += 1
                d = dotted(ctx.prog, m, fn, node.func)
                if isinstance(d, str) and d in SETTERS:
                    if d in SCOPED and _within(ctx, m, fn, node, parents, SCOPED[d]):
                        continue
                    rep.bad('setting', w, '%s changes a setting of the whole process' % d, key='setting@%s' % d)
            elif isinstance(node, (ast.Subscript, ast.Attribute)) and isinstance(node.ctx, (ast.Store, ast.Del)):
                b = dotted(ctx.prog, m, fn, node.value) if isinstance(node.value, (ast.Name, ast.Attribute)) else None
                if isinstance(b, str) and ('.' in b or b in m.imports.values()) and b not in ('self', 'cls') and b.split('.')[0] in {x.split('.')[0] for x in m.imports.values()} \
                        and b.split('.')[0] != 'NRWAL':
                    rep.bad('setting', w, '%s is changed for the whole process' % b, key='setting@%s' % b)
    rep.count('call sites', n)
    rep.ok('setting', 'package', '%d call sites, none changes a setting of the process' % n) if not any(v.rule == 'setting' for v in rep.violations) else None


def _within(ctx, m, fn, node, parents, what):
    p = parents.get(node)
    while p is not None:
        if isinstance(p, ast.With):
            for i in p.items:
                if isinstance(i.context_expr, ast.Call) and dotted(ctx.prog, m, fn, i.context_expr.func) == what:
                    return True
        p = parents.get(p)
    return False


# -- order -----------------------------------------------------------------------
def _order(ctx, rep):
    o = Order(ctx.prog).solve()
    seen = set()
    for f, node, what, x in o.sinks:
        src = {'fs': 'a directory listing', 'hash': 'a set', 'S': 'a set'}[x]
        w = '%s:%s %s' % (f.module.rel, node.lineno, f.qual)
        if (w, what) in seen:
            continue
        seen.add((w, what))
        if what == 'returned':
            if not public(f.name):
                continue            # callers are analysed with the taint of the result
            rep.bad('order', w, 'the result of %s depends on the order of %s' % (f.qual, src), key='order@%s' % f.qual)
        else:
            rep.bad('order', w, '%s in the order of %s' % (what, src), key='order@%s' % f.qual)
    rep.count('directory listings', len(o.sources))
    rep.count('functions with order taint analysis', len(ctx.prog.all_funcs()))
    if not any(v.rule == 'order' for v in rep.violations):
        for f, node in o.sources:
            rep.ok('order', '%s:%s %s' % (f.module.rel, node.lineno, f.qual), 'the listing is sorted before its order can be observed')
        rep.ok('order', 'package', 'no set or listing order reaches a result')
