#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current source.

exit 0: holds on everything analysed; exit 1: VIOLATION lines printed."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import extract
import registry


def known():
    f = os.path.join(HERE, 'known-findings.json')
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    pid = sys.argv[1]
    spec = registry.CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    rep = registry.run(pid, tier)
    wall = time.time() - t0

    listed = {(k['property'], k['key']): k for k in known() if k.get('status') == 'finding'}
    new, old = [], []
    for key, text in dict(reversed([(k, t) for k, t in rep.viol])).items():
        (old if (pid, key) in listed else new).append((key, text))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec['level'],
        'coverage': registry.coverage(pid, spec, rep, HERE),
        'assumptions': spec['assumptions'],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    EV = os.environ.get('SA_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, text in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, listed[(pid, key)]['what'], key))
    if new:
        rd = os.path.join(EV, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('re-run: cd /verif && python3 check.py %s\n\n' % pid)
            for key, text in new:
                f.write('[%s]\n  %s\n\n' % (key, text))
        for key, text in new[:20]:
            print('%s: [%s] %s' % (pid, key, text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('%s: %d obligations discharged, %d known findings, %.1fs' % (
        pid, sum(1 for _, o in rep.obl if o), len(old), wall))
    sys.exit(0)


if __name__ == '__main__':
    main()
