"""C02: files are read as plain data, nothing is written, no process / network / environment effects."""
import ast

from ..astq import walk_funcs, dotted, const_of, loc
from ..program import Cls, Func

RULES = ['every call site and import of the package is resolved; external callees are compared with the effect table '
         '(files written, processes, network, environment, unsafe deserialisation); open() modes must be read-only; '
         'yaml must be loaded with a safe loader']
ASSUMPTIONS = ['numpy, pandas, yaml.safe_load and json.load themselves have no side effects on files',
               'evaluation of equation text is covered by C01']

OS_OK = {'os.listdir', 'os.scandir', 'os.walk', 'os.fspath', 'os.getcwd', 'os.stat', 'os.lstat', 'os.access', 'os.getenv',
         'os.environ.get', 'os.cpu_count', 'os.getpid', 'os.sep', 'os.DirEntry', 'os.strerror', 'os.fsdecode', 'os.fsencode'}
BAD_MODULES = {'subprocess', 'socket', 'urllib', 'requests', 'http', 'ftplib', 'smtplib', 'pickle', 'cPickle', 'marshal',
               'shelve', 'dill', 'cloudpickle', 'joblib', 'runpy', 'ctypes', 'multiprocessing', 'shutil', 'tempfile',
               'sqlite3', 'telnetlib', 'asyncio', 'pty', 'signal', 'webbrowser', 'xmlrpc', 'paramiko', 'fileinput',
               'h5py', 'code', 'codeop', 'pip', 'importlib', 'zipimport', 'dbm', 'threading', 'concurrent'}
MODULE_OK = {'importlib.resources', 'importlib.metadata', 'tempfile.gettempdir', 'threading.Lock', 'threading.RLock',
             'urllib.parse', 'asyncio.run_ok', 'shutil.which', 'threading.local'}
YAML_SAFE = {'yaml.safe_load', 'yaml.safe_load_all'}
YAML_LOAD = {'yaml.load', 'yaml.load_all'}
YAML_UNSAFE = {'yaml.full_load', 'yaml.full_load_all', 'yaml.unsafe_load', 'yaml.unsafe_load_all'}
SAFE_LOADERS = {'yaml.SafeLoader', 'yaml.CSafeLoader', 'yaml.BaseLoader', 'yaml.CBaseLoader', 'yaml.loader.SafeLoader',
                'yaml.loader.BaseLoader', 'yaml.cyaml.CSafeLoader'}
BAD_EXT = {'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt', 'numpy.memmap', 'numpy.DataSource',
           'numpy.load', 'pandas.read_pickle', 'pandas.to_pickle', 'pandas.ExcelWriter', 'pandas.HDFStore', 'json.dump',
           'logging.FileHandler', 'logging.handlers.RotatingFileHandler', 'logging.handlers.TimedRotatingFileHandler',
           'logging.handlers.SocketHandler', 'logging.handlers.HTTPHandler', 'io.FileIO', 'sys.exit', 'exit', 'quit',
           'sys.setrecursionlimit', 'locale.setlocale', 'site.addsitedir', 'atexit.register', 'yaml.add_constructor_unsafe'}
BAD_METHODS = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'to_csv', 'to_pickle', 'to_json_file', 'to_excel', 'to_hdf',
               'to_parquet', 'to_feather', 'tofile', 'writelines', 'mkdir', 'symlink_to', 'hardlink_to', 'to_sql', 'touch'}


def check(ctx, rep):
    prog = ctx.prog
    for m, cls, fn, n in walk_funcs(prog):
        if isinstance(n, ast.Call):
            rep.count('call sites examined')
            _call(prog, rep, m, cls, fn, n)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in tg:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    b = x.value if isinstance(x, (ast.Subscript, ast.Attribute)) else None
                    if b is None:
                        continue
                    d = dotted(prog, m, fn, b)
                    if isinstance(d, str) and (d in ('os.environ', 'sys.path', 'sys.modules', 'os', 'sys') or d.startswith('os.environ')):
                        rep.bad('no-environment-change', loc(m, cls, fn, n), 'assignment into %s' % d)
        elif isinstance(n, ast.With):
            pass
    rep.floor('yaml / json load sites', 2)
    rep.floor('open() sites read-only', 1)


def _call(prog, rep, m, cls, fn, n):
    d = dotted(prog, m, fn, n.func)
    where = loc(m, cls, fn, n)
    if isinstance(d, Func):
        return
    if isinstance(d, Cls):
        for b in d.bases:
            if isinstance(b, str) and b.split('.')[-1] in ('Loader', 'FullLoader', 'UnsafeLoader', 'CLoader') and 'yaml' in str(m.imports.values()):
                rep.bad('safe-loading', where, 'instantiates %s, a subclass of an unsafe yaml loader' % d.name)
        return
    if d is None:
        if isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in BAD_METHODS:
                rep.bad('no-writes', where, 'call of .%s() writes or changes files' % a)
            elif a == 'open' :
                _open(prog, rep, m, cls, fn, n, n.args[0] if n.args else None, where)
            elif a == 'write':
                rep.bad('no-writes', where, 'call of .write()')
            elif a in ('load', 'load_all') and False:
                pass
            elif a in ('get_data', 'get_single_data'):
                rep.unk('safe-loading', where, 'direct use of a yaml loader object')
            elif a == 'query' and n.args:
                pass
            else:
                rep.count('method calls on package / data values')
        return
    root = d.split('.')[0]
    if d in ('open', 'io.open', 'codecs.open', 'os.fdopen', 'gzip.open', 'bz2.open', 'lzma.open'):
        mode = None
        if len(n.args) > 1:
            mode = n.args[1]
        for k in n.keywords:
            if k.arg == 'mode':
                mode = k.value
        _open(prog, rep, m, cls, fn, n, mode, where)
        return
    if root == 'yaml':
        if d in YAML_SAFE:
            rep.count('yaml / json load sites')
            rep.ok('safe-loading', where, d)
        elif d in YAML_LOAD:
            ld = n.args[1] if len(n.args) > 1 else None
            for k in n.keywords:
                if k.arg == 'Loader':
                    ld = k.value
            _loader(prog, rep, m, cls, fn, ld, where, d)
        elif d in YAML_UNSAFE:
            rep.bad('safe-loading', where, '%s can run code named in the file' % d)
        elif d.split('.')[-1] in ('Loader', 'FullLoader', 'UnsafeLoader', 'CLoader', 'CFullLoader'):
            rep.bad('safe-loading', where, 'unsafe yaml loader %s' % d)
        elif d in ('yaml.dump', 'yaml.safe_dump', 'yaml.dump_all'):
            if len(n.args) > 1 or any(k.arg == 'stream' for k in n.keywords):
                rep.bad('no-writes', where, '%s writes to a stream' % d)
        elif d.split('.')[-1] in ('add_constructor', 'add_multi_constructor'):
            _constructor(prog, rep, m, cls, fn, n, where)
        return
    if d in ('json.load', 'json.loads'):
        rep.count('yaml / json load sites')
        rep.ok('safe-loading', where, d)
        return
    if d in BAD_EXT:
        rep.bad('no-effects', where, 'call of %s' % d)
        return
    if root == 'os':
        if d.startswith('os.path.') or d in OS_OK:
            rep.count('os calls that only read')
        elif d in ('os.environ.copy', 'os.environ.items', 'os.environ.keys', 'os.environ.values'):
            pass
        else:
            rep.bad('no-effects', where, 'call of %s' % d)
        return
    if root in BAD_MODULES and not any(d == x or d.startswith(x + '.') for x in MODULE_OK):
        rep.bad('no-effects', where, 'call of %s' % d)
        return
    if root in ('sys',) and d.split('.')[1:2] and d.split('.')[1] in ('path', 'modules', 'stdout', 'stderr') and d.split('.')[-1] in (
            'append', 'insert', 'pop', 'update', 'remove', 'clear', 'setdefault', 'extend'):
        rep.bad('no-environment-change', where, 'call of %s' % d)
        return
    if root == 'logging' and d == 'logging.basicConfig' and any(k.arg == 'filename' for k in n.keywords):
        rep.bad('no-writes', where, 'log file opened by the package')
        return
    if d.split('.')[-1] in BAD_METHODS and root in ('pathlib', 'pandas', 'numpy'):
        rep.bad('no-writes', where, 'call of %s' % d)
        return
    rep.count('other external calls (no effect)')


def _open(prog, rep, m, cls, fn, n, mode, where):
    if mode is None:
        rep.count('open() sites read-only')
        rep.ok('no-writes', where, 'open() in default read mode')
        return
    c = const_of(prog, m, fn, mode)
    if isinstance(c, str):
        if any(x in c for x in 'wax+'):
            rep.bad('no-writes', where, 'file opened with mode %r' % c)
        else:
            rep.count('open() sites read-only')
            rep.ok('no-writes', where, 'open() with mode %r' % c)
    else:
        rep.unk('no-writes', where, 'open() mode is not a constant')


def _loader(prog, rep, m, cls, fn, ld, where, d):
    if ld is None:
        rep.bad('safe-loading', where, '%s without a safe Loader' % d)
        return
    names = []
    t = dotted(prog, m, fn, ld)
    if isinstance(t, Cls):
        names = [b if isinstance(b, str) else b.name for b in t.bases]
        full = []
        for b in t.node.bases:
            r = dotted(prog, t.module, None, b)
            full.append(r if isinstance(r, str) else str(b))
        names = full
    elif isinstance(t, str):
        names = [t]
    if isinstance(ld, ast.Call):       # getattr(yaml, 'CSafeLoader', yaml.SafeLoader)
        xs = [dotted(prog, m, fn, a) for a in ld.args]
        names = [x for x in [t] + xs if isinstance(x, str) and x != 'yaml']
    if names and all(x in SAFE_LOADERS for x in names):
        rep.count('yaml / json load sites')
        rep.ok('safe-loading', where, '%s with %s' % (d, names))
    elif names and any(x.startswith('yaml') for x in names):
        rep.bad('safe-loading', where, '%s with loader %s' % (d, names))
    else:
        rep.unk('safe-loading', where, 'loader of %s not resolved' % d)


def _constructor(prog, rep, m, cls, fn, n, where):
    target = [a for a in n.args[1:2]]
    for a in target:
        f = dotted(prog, m, fn, a)
        body = f.node if isinstance(f, Func) else a
        for x in ast.walk(body):
            if isinstance(x, ast.Call):
                d = dotted(prog, m, None, x.func)
                if d in ('eval', 'exec', 'compile', '__import__', 'getattr') or (isinstance(d, str) and d.split('.')[0] in BAD_MODULES):
                    rep.bad('safe-loading', where, 'yaml tag constructor that calls %s' % d)
