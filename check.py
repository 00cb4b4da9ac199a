#!/usr/bin/env python3
"""usage: check.py <property> ; decides one property of /repo's current tree by static analysis"""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(200000)
import common


def known():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding: '):
            h = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
            out.append((h['property'], h['key'], l[9:].split(' ', 2)[2]))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import checks
    rep = common.Report(prop)
    checks.run(prop, rep, tier)
    kn = [(k, t) for p, k, t in known() if p == prop]
    fresh, seen = [], set()
    for key, text in rep.violations:
        hit = [t for k, t in kn if k == key]
        if hit:
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            fresh.append((key, text))
    info = checks.INFO[prop]
    cov = {
        'explanation': info['how'],
        'rule': info['rule'],
        'obligations': rep.obligations,
        'discharged': rep.obligations - len({k for k, _ in rep.violations}),
        'by_rule': rep.by_kind,
        'analysed_tree': common.tree_key(),
        'samples': rep.samples[:120],
        'notes': rep.notes,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': info.get('assume', []), 'wall_s': round(time.time() - t0, 3), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if fresh:
        rp = os.path.join(common.BUILD, 'replay-%s.txt' % prop)
        os.makedirs(common.BUILD, exist_ok=True)
        with open(rp, 'w') as f:
            f.write('property %s, tree %s\nre-run: python3 %s %s\n' % (prop, common.tree_key(), os.path.join(HERE, 'check.py'), prop))
            for k, t in fresh:
                f.write('[%s] %s\n' % (k, t))
        for k, t in fresh[:25]:
            print('  ' + t[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s holds: %d obligations (%s)' % (prop, rep.obligations, ', '.join('%s %d' % (k, v) for k, v in sorted(rep.by_kind.items()))))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except common.Broken as e:
        print('ERROR', e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
