#!/usr/bin/env python3
"""Decide one property of NRWAL by static analysis of the source in /repo.

usage: check.py PROPERTY [quick|thorough]

exit 0: the property holds on everything analysed
exit 1: violated; prints  VIOLATION property=<id> replay=<path>
exit 2: the analysis itself could not be carried out
The code under analysis is only read and parsed, never imported or executed."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from nrwal_sa.report import Report, limit_memory    # noqa: E402
from nrwal_sa.program import AnalysisError    # noqa: E402
from nrwal_sa.context import Context          # noqa: E402


def load_known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    repo = os.environ.get('NRWAL_SA_REPO', '/repo')
    t0 = time.time()
    limit_memory()
    rep = Report(prop)
    try:
        ctx = Context(repo, tier)
        mod = importlib.import_module('nrwal_sa.rules.' + prop.lower())
        rep.part('check', mod.check, ctx, rep, limit=600)
        rep.finish(mod)
        if not rep.oks and not rep.violations:
            # no answer about this tree: reported as such, neither held nor violated
            print('UNDECIDED property=%s nothing could be decided' % prop)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
        return 2
    known = load_known(prop)
    new = []
    for v in rep.violations:
        hit = [k for k in known if k.split(' | ')[0] == v.key]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            new.append(v)
    wall = time.time() - t0
    evdir = os.environ.get('NRWAL_SA_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + '.violations.txt')
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': rep.coverage(ctx),
        'assumptions': rep.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(new),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for k, n in sorted(rep.counts.items()):
        print('  %-46s %s' % (k, n))
    print('property %s: %d obligations checked, %d hold, %d undecided, %d violated (%.1f s)'
          % (prop, len(rep.oks) + len(rep.unks) + len(rep.violations), len(rep.oks), len(rep.unks),
             len(rep.violations), wall))
    for u in rep.unks:
        print('  undecided: %s' % u)
    if new:
        with open(replay, 'w') as f:
            f.write('re-run: python3 %s %s\n' % (os.path.join(HERE, 'check.py'), prop))
            for v in new:
                f.write('%s\n' % v)
        for v in new:
            print('  %s' % v)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    return 0


if __name__ == '__main__':
    sys.exit(main())
