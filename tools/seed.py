#!/usr/bin/env python3
"""verify seeded bugs: seed.py verify ID... : applies, builds, tests, demo, checks, undoes."""
import json, os, subprocess, sys
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git -C /repo checkout -- .')
def verify(i, checks=True):
    d = '%s/seeded/%s' % (V, i)
    meta = json.load(open(d + '/meta.json'))
    r = {'id': i}
    if sh('git -C /repo status --short').stdout.strip(): print('dirty repo'); sys.exit(2)
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'patch does not apply', a.stderr[:300]); return
    try:
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        base = json.load(open('/opt/vp/BASELINE.json')); base = set(base['stable'])
        got = set(json.load(open('/tmp/seed_out.json'))['passed'])
        r['tests'] = 'ok' if base <= got else 'FAIL %d %s' % (len(base - got), sorted(base - got)[:3])
        if not got: r['tests'] += t.stderr[-800:] + t.stdout[-1500:]
        dm = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        r['demo_with'] = dm.returncode; r['demo_out'] = (dm.stdout + dm.stderr)[-200:]
        if checks:
            c = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vc.py check %s --tier quick' % meta['property'])
            r['check'] = c.returncode; r['check_out'] = (c.stdout + c.stderr)[-400:]
    finally:
        undo()
    sh('bash /opt/vp/build.sh')
    dm = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    r['demo_without'] = dm.returncode
    if dm.returncode: r['demo_without_out'] = (dm.stdout + dm.stderr)[-300:]
    ok = r['tests'] == 'ok' and r['demo_with'] not in (0, 3) and r['demo_without'] == 0
    print(i, meta['property'], 'COUNTS' if ok else 'INVALID', 'CAUGHT' if r.get('check') == 1 else 'missed' if checks else '', json.dumps(r) if not ok or r.get('check') != 1 else r.get('check_out', '')[:300])
    sys.stdout.flush()
    if checks:
        rp = V + '/tools/seed_results.json'
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[i] = 'yes' if r.get('check') == 1 else 'no'
        json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
if __name__ == '__main__':
    for i in sys.argv[2:]: verify(i, sys.argv[1] == 'verify')
