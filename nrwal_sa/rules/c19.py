"""C19: shipped offshore wind configs use the library entries their names announce."""
import ast
import collections
import os
import re

from .. import data as D

RULES = ['each <substructure>_<n>MW_<year>.yaml of default_configs/osw_* is parsed and every library reference in it compared with the file name: '
         'rating and year suffixes, substructure names, fixed / floating entries, library edition, interpolation flags',
         'configs of one edition are compared entry by entry after replacing those parameters (normal form of the arithmetic); any remaining '
         'difference inside a family is reported']
ASSUMPTIONS = ['the base year 2015 of the 2015 edition has no cost reductions; the _lt_8MW and _gt10MW entries are the variants for ratings up to 8 MW '
               'and above 10 MW']

SUBS = {'monopile': 'fixed', 'jacket': 'fixed', 'semi': 'floating', 'spar': 'floating'}
NAME = re.compile(r'^(monopile|jacket|semi|spar)_(\d+)MW_(\d{4})\.ya?ml$')


class C:
    pass


def check(ctx, rep):
    root = os.path.join(ctx.repo, 'NRWAL', 'default_configs')
    lib = D.Library(os.path.join(ctx.repo, 'NRWAL', 'analysis_library'))
    confs = []
    for ed in sorted(os.listdir(root)):
        if not ed.startswith('osw_'):
            continue
        for fn in sorted(os.listdir(os.path.join(root, ed))):
            m = NAME.match(fn)
            if not m:
                continue
            c = C()
            c.path = os.path.join(root, ed, fn)
            c.rel = os.path.relpath(c.path, ctx.repo)
            c.ed, c.sub, c.mw, c.year = ed, m.group(1), int(m.group(2)), m.group(3)
            c.kind = SUBS[c.sub]
            try:
                c.data, _ = D.load(c.path)
            except Exception as e:
                rep.bad('readable', c.rel, str(e).split('\n')[0])
                continue
            confs.append(c)
            rep.count('offshore wind configs')
            _names(rep, c, lib)
    rep.floor('offshore wind configs', 40)
    rep.floor('references compared with the file name', 700)
    _family(rep, confs)
    _aggregations(ctx, rep, root)


def _w(c, k):
    return '%s:%d %s' % (c.rel, D.line_of(c.path, k), k)


def _names(rep, c, lib):
    for fl in ('interp_extrap_power', 'interp_extrap_year'):
        v = c.data.get(fl)
        rep.judge(bool(v) and not (isinstance(v, str)), 'flags', _w(c, fl), 'True', '%s is %r, interpolation is off' % (fl, v))
    for fl in ('use_nearest_power', 'use_nearest_year'):
        if fl in c.data:
            rep.unk('flags', _w(c, fl), 'use_nearest flag set in a shipped config')
    for k, v in c.data.items():
        if not isinstance(v, str) or D.POINTER.match(v):
            if isinstance(v, str):
                rep.judge(v.strip().startswith('./standard_aggregation.') or '/' not in v.strip().lstrip('./'), 'edition', _w(c, k), v,
                          'pointer into another directory: %s' % v)
            continue
        for n in D.names_in(D.parse(v)):
            path = D.ref_of(n)
            if path is None:
                continue
            rep.count('references compared with the file name')
            ref = '::'.join(path)
            key = path[-1]
            w = _w(c, k)
            if path[0].startswith('osw_'):
                ok = path[0] in ('osw_2015',) if c.ed == 'osw_2015' else path[0] in ('osw_2015', c.ed)
                rep.judge(ok, 'edition', w, ref, '%s: edition %s in a config of %s' % (ref, path[0], c.ed))
            m = re.match(r'^(.*)_(\d{4})$', key)
            if m:
                rep.judge(m.group(2) == c.year, 'year', w, ref, '%s: year %s in a %s config' % (ref, m.group(2), c.year))
            m = re.match(r'^(.*?)_(lt_|gt_?)?(\d+)MW$', key)
            if m and not m.group(2):
                rep.judge(int(m.group(3)) == c.mw, 'rating', w, ref, '%s: rating %s MW in a %d MW config' % (ref, m.group(3), c.mw))
            elif m and m.group(2).startswith('lt'):
                rep.judge(c.mw <= int(m.group(3)), 'rating', w, ref, '%s in a %d MW config' % (ref, c.mw))
            elif m:
                rep.judge(c.mw > int(m.group(3)), 'rating', w, ref, '%s in a %d MW config' % (ref, c.mw))
            else:
                g = lib.get(path[:-1])
                ks = list((g.items if isinstance(g, D.Library) else g) or ()) if g is not None else []
                for alt in ks:
                    ma = re.match(re.escape(key) + r'_(lt|gt)_?(\d+)MW$', str(alt))
                    if ma:
                        lim = int(ma.group(2))
                        need = c.mw <= lim if ma.group(1) == 'lt' else c.mw > lim
                        rep.judge(not need, 'rating', w, ref, '%s used in a %d MW config although %s exists' % (ref, c.mw, alt))
            for s in SUBS:
                for part in path:
                    if re.search(r'(^|_)%s(_|$)' % s, part) and s != c.sub:
                        rep.bad('substructure', w, '%s in a %s config' % (ref, c.sub))
            for kd in ('fixed', 'floating'):
                for part in path:
                    if re.search(r'(^|_)%s(_|$)' % kd, part):
                        rep.judge(kd == c.kind, 'fixed-floating', w, ref, '%s (%s) in a %s config' % (ref, kd, c.sub))


def _generic(c, t):
    """tree with the parameters of the file name abstracted"""
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            path = D.ref_of(n.id)
            if path is None:
                return n
            out = []
            for i, p in enumerate(path):
                if i == len(path) - 1:
                    p = re.sub(r'_%s$' % c.year, '_YEAR', p)
                    p = re.sub(r'_%dMW$' % c.mw, '_NMW', p) if not re.search(r'_(lt_|gt_?)\d+MW$', p) else re.sub(r'_(lt_|gt_?)\d+MW$', '', p)
                p = re.sub(r'(^|_)%s(?=_|$)' % c.sub, r'\1SUB', p)
                p = re.sub(r'(^|_)%s(?=_|$)' % c.kind, r'\1KIND', p)
                out.append(p)
            return ast.Name('__DD__'.join(out), n.ctx)
    return R().visit(t)


def _split_reduction(nf):
    """(core, reduction) of core * (1 -/+ cost_reductions::x_YEAR)"""
    if nf[0] == 'Mult':
        red = [x for x in nf[1:] if isinstance(x, tuple) and x[0] in ('Sub', 'Add') and 'cost_reductions__DD__' in repr(x) and ('num', 1.0) in x]
        rest = [x for x in nf[1:] if x not in red]
        if len(red) == 1 and rest:
            core = rest[0] if len(rest) == 1 else ('Mult',) + tuple(rest)
            return core, red[0]
    return nf, None


def _drop_inner(nf):
    """core with every reduction multiplier removed, and the list of them"""
    reds = []

    def rec(x):
        if not isinstance(x, tuple) or not x or x[0] in ('num', 'name', 'const'):
            return x
        core, r = _split_reduction(x)
        if r is not None:
            reds.append(r)
            return rec(core)
        out = [x[0]] + [rec(y) if isinstance(y, tuple) else y for y in x[1:]]
        if x[0] in ('Add', 'Mult'):
            flat = []
            for y in out[1:]:
                flat += list(y[1:]) if isinstance(y, tuple) and y and y[0] == x[0] else [y]
            return (x[0],) + tuple(sorted(flat, key=repr))
        return tuple(out)
    core = rec(nf)
    return core, tuple(sorted(reds, key=repr))


def _family(rep, confs):
    tabs = collections.defaultdict(lambda: collections.defaultdict(list))
    for c in confs:
        base = c.ed == 'osw_2015' and c.year == '2015'
        for k, v in c.data.items():
            if k in D.FLAGS:
                continue
            if isinstance(v, str) and D.POINTER.match(v):
                core, reds = ('pointer', v.strip()), ()
            elif D.is_num(v):
                core, reds = ('num', float(v)), ()
            else:
                t = D.parse(v)
                if t is None:
                    rep.unk('family', _w(c, k), 'not parsed')
                    continue
                core, reds = _drop_inner(D.norm(_generic(c, t)))
            rep.count('config entries compared within their family')
            dim = c.sub if k == 'substructure' else c.kind
            tabs[('core', c.ed, dim, c.mw > 10, k)][core].append(c)
            if k != 'cost_reductions':
                tabs[('reduction', c.ed, base, k)][reds].append(c)
            if not base and not isinstance(v, (int, float)) or True:
                tabs[('keys', c.ed, c.kind, base)].setdefault(k, []).append(c)
    for fam, alts in tabs.items():
        if fam[0] == 'keys':
            n = len({x.rel for l in alts.values() for x in l})
            for k, l in alts.items():
                have = {x.rel for x in l}
                if len(have) != n:
                    miss = [x for x in confs if x.ed == fam[1] and x.kind == fam[2] and (x.ed == 'osw_2015' and x.year == '2015') == fam[3]
                            and x.rel not in have]
                    if len(have) > len(miss):
                        for x in miss:
                            rep.bad('family', x.rel + ' ' + k, 'entry %s is missing, the other configs of the family have it' % k)
                    else:
                        for x in l:
                            rep.bad('family', _w(x, k), 'entry %s is not in the other configs of the family' % k)
            continue
        if len(alts) == 1:
            rep.ok('family', '/'.join(map(str, fam)), '%d configs agree' % len(next(iter(alts.values()))))
            continue
        best = max(alts, key=lambda a: len(alts[a]))
        for a, l in alts.items():
            if a != best:
                for x in l:
                    rep.bad('family', _w(x, fam[-1]), '%s of %s differs from the other %d configs of its family: %s'
                            % (fam[0], fam[-1], len(alts[best]), str(a)[:200]))


def _aggregations(ctx, rep, root):
    """the editions share the aggregation formulas"""
    ds = {}
    for ed in sorted(os.listdir(root)):
        p = os.path.join(root, ed, 'standard_aggregation.yaml')
        if ed.startswith('osw_') and os.path.exists(p):
            try:
                ds[ed] = (p, D.load(p)[0])
            except Exception as e:
                rep.bad('readable', os.path.relpath(p, ctx.repo), str(e).split('\n')[0])
    eds = sorted(ds)
    for a in eds[1:]:
        p0, d0 = ds[eds[0]]
        p1, d1 = ds[a]
        for k in sorted(set(d0) | set(d1), key=str):
            t0 = D.norm(D.parse(d0[k])) if k in d0 and D.parse(d0[k]) is not None else None
            t1 = D.norm(D.parse(d1[k])) if k in d1 and D.parse(d1[k]) is not None else None
            w = '%s:%d %s' % (os.path.relpath(p1, ctx.repo), D.line_of(p1, k), k)
            rep.judge(t0 == t1, 'aggregation', w, 'same formula in both editions', 'aggregation formula differs between %s and %s' % (eds[0], a))
