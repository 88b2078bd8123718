import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import common as C                                                   # noqa: E402
import json                                                          # noqa: E402
import props                                                         # noqa: E402


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    P = props.PROPS[pid]
    C.PROG = C.export()
    tasks = P['tasks'](tier)
    obs = C.pool_run(tasks, deadline=(820 if tier == 'quick' else 3300))
    known = []
    kf = os.path.join(C.VERIF, 'known-findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid]
    bad, unk, ok, kn = [], [], [], []
    for o in obs:
        if o.status == C.BAD:
            k = [x for x in known if x['key'] == o.key]
            (kn if k else bad).append(o)
        elif o.status == C.OK:
            ok.append(o)
        else:
            unk.append(o)
    ed = os.path.join(C.VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    fns = set()
    for o in obs:
        fns.update(o.stats.pop('fns', ()))
    crate = sorted(n for n in fns if n.startswith(('crypto_pure', '<crypto_pure')) or 'crypto_pure' in n)
    cov = {
        'explanation': P['explanation'],
        'obligations_total': len(obs),
        'obligations_discharged': len(ok),
        'obligations_violated': len(bad),
        'obligations_known': len(kn),
        'obligations_undecided': [o.js() for o in unk],
        'exhaustive': bool(P.get('exhaustive')) and not unk,
        'rule': P['rule'],
        'functions_analysed': len(fns),
        'crate_functions_analysed': crate[:200],
        'call_sites_interpreted': sum(o.stats.get('calls', 0) for o in obs),
        'samples': [dict(o.js(), site=o.site) for o in (ok[:3] + ok[-3:])],
        'program': {'functions_exported': len(C.PROG.fns), 'roots': len(C.PROG.roots)},
    }
    for o in obs:
        for k, v in o.stats.items():
            if k.startswith('n_'):
                cov[k[2:]] = cov.get(k[2:], 0) + v
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'other'),
          'coverage': cov, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    with open(os.path.join(ed, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in kn:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, o.detail, o.name))
    print('%s: %d obligations, %d discharged, %d violated, %d undecided, %.1f s' % (pid, len(obs), len(ok), len(bad), len(unk), time.time() - t0))
    for o in unk[:10]:
        print('  undecided: %s: %s' % (o.name, o.detail[:300]))
    if bad:
        rp = os.path.join(ed, pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump([o.js() for o in bad], f, indent=1)
        for o in bad[:6]:
            print('  %s: %s [%s]' % (o.name, o.detail, o.site))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except C.Broken as e:
        print('ERROR: ' + str(e))
        rc = 2
    sys.exit(rc)
