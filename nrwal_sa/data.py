"""Static model of the shipped YAML data (library formulas and default configs)."""
import ast
import glob
import json
import os
import re

import yaml


class Dup(Exception):
    pass


def load(path):
    """(data, duplicate keys) of a yaml / json file, read as plain data"""
    dups = []

    class L(yaml.SafeLoader):
        pass

    def mapping(loader, node, deep=False):
        seen = {}
        for k, v in node.value:
            key = loader.construct_object(k, deep=True)
            if key in seen:
                dups.append((key, k.start_mark.line + 1))
            seen[key] = 1
        return yaml.SafeLoader.construct_mapping(loader, node, deep=True)
    L.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, mapping)
    with open(path) as f:
        if path.endswith('.json'):
            def hook(pairs):
                seen = set()
                for k, _ in pairs:
                    if k in seen:
                        dups.append((k, 0))
                    seen.add(k)
                return dict(pairs)
            return json.load(f, object_pairs_hook=hook), dups
        return yaml.load(f, Loader=L), dups


def line_of(path, key):
    pat = re.compile(r'^\s*["\']?' + re.escape(str(key)) + r'["\']?\s*:')
    for i, l in enumerate(open(path), 1):
        if pat.match(l):
            return i
    return 1


REF = re.compile(r'[A-Za-z_]\w*(?:::\w+)+')
POINTER = re.compile(r'^\s*(\S+\.(?:ya?ml|json))::(\S+)\s*$')


def parse(text, refs=True):
    """syntax tree of a formula; a::b::c becomes the name a__DD__b__DD__c; None if it is not an expression"""
    s = str(text).strip()
    if refs:
        s = REF.sub(lambda m: m.group(0).replace('::', '__DD__'), s)
    s = ' '.join(s.split())
    try:
        return ast.parse(s, mode='eval').body
    except SyntaxError:
        return None


def ref_of(name):
    return name.split('__DD__') if '__DD__' in name else None


def is_num(v):
    try:
        float(str(v))
        return True
    except ValueError:
        return False


class Library:
    """directory tree of groups: name -> Library | dict"""
    def __init__(self, root):
        self.root = root
        self.items = {}
        self.files = []
        self.dups = []
        self.errors = []
        for n in sorted(os.listdir(root)):
            p = os.path.join(root, n)
            if n.startswith(('.', '__')):
                continue
            if os.path.isdir(p):
                sub = Library(p)
                if sub.items:
                    self.items[n] = sub
                self.files += sub.files
                self.dups += sub.dups
                self.errors += sub.errors
            elif n.endswith(('.json', '.yml', '.yaml')):
                try:
                    d, dups = load(p)
                except Exception as e:
                    self.errors.append((p, str(e).split('\n')[0]))
                    continue
                self.items[os.path.splitext(n)[0]] = d
                self.files.append((p, d))
                self.dups += [(p, k, l) for k, l in dups]

    def get(self, path):
        cur = self
        for k in path:
            if isinstance(cur, Library):
                cur = cur.items
            if not isinstance(cur, dict) or k not in cur:
                return None
            cur = cur[k]
        return cur


SUFFIX = {'power': re.compile(r'^(.*)_(\d+)MW$'), 'year': re.compile(r'^(.*)_(\d{4})$')}


def resolves(group, key, flags):
    """'exact' | 'power' | 'year' | None for a key of a group under the given flags"""
    if isinstance(group, Library):
        group = group.items
    if not isinstance(group, dict):
        return None
    if key in group:
        return 'exact'
    for kind, pat in SUFFIX.items():
        m = pat.match(key)
        if m:
            cands = [k for k in group if isinstance(k, str) and pat.match(k) and pat.match(k).group(1) == m.group(1)]
            if flags.get('interp_extrap_' + kind) and len(cands) >= 2:
                return kind
            if (flags.get('interp_extrap_' + kind) or flags.get('use_nearest_' + kind)) and cands:
                return kind
    return None


FLAGS = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year', 'use_nearest_year')


class Config:
    def __init__(self, path):
        self.path = path
        self.data, self.dups = load(path)
        self.flags = {f: bool(self.data.get(f)) for f in FLAGS}
        self.entries = {k: v for k, v in self.data.items() if k not in FLAGS and k != 'equation_directory'}
        self.expanded = {}
        self.bad_pointers = []
        for k, v in self.entries.items():
            self.expanded[k] = v
            m = POINTER.match(v) if isinstance(v, str) else None
            if m:
                self.expanded[k] = self._follow(k, v, m, 0)

    def _follow(self, k, v, m, depth):
        p = os.path.join(os.path.dirname(self.path), m.group(1))
        if not os.path.exists(p):
            self.bad_pointers.append((k, v, 'file does not exist'))
            return v
        try:
            d, _ = load(p)
        except Exception:
            self.bad_pointers.append((k, v, 'file cannot be read'))
            return v
        if not isinstance(d, dict) or m.group(2) not in d:
            self.bad_pointers.append((k, v, 'no entry %s in that file' % m.group(2)))
            return v
        r = d[m.group(2)]
        m2 = POINTER.match(r) if isinstance(r, str) else None
        if m2 and depth < 5:
            return self._follow(k, r, m2, depth + 1)
        return r


def names_in(tree):
    return [n.id for n in ast.walk(tree) if isinstance(n, ast.Name)] if tree is not None else []


def configs(root):
    return sorted(glob.glob(os.path.join(root, '**', '*.y*ml'), recursive=True) +
                  glob.glob(os.path.join(root, '**', '*.json'), recursive=True))


# -- normal form: behaviour-preserving spelling differences disappear ------------
def norm(t):
    """hashable normal form of an arithmetic tree (numbers as floats, redundant brackets gone, + and * flattened)"""
    if isinstance(t, ast.BinOp):
        op = type(t.op).__name__
        if op in ('Add', 'Mult'):
            xs = []

            def flat(n):
                if isinstance(n, ast.BinOp) and type(n.op).__name__ == op:
                    flat(n.left)
                    flat(n.right)
                else:
                    xs.append(norm(n))
            flat(t)
            return (op,) + tuple(sorted(xs, key=repr))
        if op == 'BitXor':
            op = 'Pow'
        return (op, norm(t.left), norm(t.right))
    if isinstance(t, ast.UnaryOp):
        if isinstance(t.op, ast.USub) and isinstance(t.operand, ast.Constant):
            return ('num', -float(t.operand.value))
        return (type(t.op).__name__, norm(t.operand))
    if isinstance(t, ast.Constant):
        return ('num', float(t.value)) if isinstance(t.value, (int, float)) else ('const', repr(t.value))
    if isinstance(t, ast.Name):
        return ('name', t.id)
    if isinstance(t, ast.Call):
        return ('call', ast.unparse(t.func)) + tuple(norm(a) for a in t.args) + tuple((k.arg, norm(k.value)) for k in t.keywords)
    if isinstance(t, (ast.List, ast.Tuple)):
        return ('seq',) + tuple(norm(e) for e in t.elts)
    if isinstance(t, ast.Compare):
        return ('cmp', tuple(type(o).__name__ for o in t.ops), norm(t.left)) + tuple(norm(c) for c in t.comparators)
    return ('other', ast.dump(t))


def unparse_norm(x):
    return str(x)
