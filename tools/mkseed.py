"""mkseed(id, prop, needs, breaks, [(file, old, new)...], demo_cc) writes /verif/seeded/<id>."""
import json, os, shutil, subprocess, tempfile
def mkseed(i, prop, needs, breaks, edits, demo):
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    diff = ''
    with tempfile.TemporaryDirectory() as t:
        for f, o, n in edits:
            for x in 'ab': os.makedirs(os.path.dirname('%s/%s/cartographer/%s' % (t, x, f)), exist_ok=True)
            s = open('/repo/cartographer/' + f).read()
            if s.count(o) != 1: raise SystemExit('%s: %d matches of %r in %s' % (i, s.count(o), o, f))
            open('%s/a/cartographer/%s' % (t, f), 'w').write(s); open('%s/b/cartographer/%s' % (t, f), 'w').write(s.replace(o, n))
        diff = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cc', 'w').write(demo)
    shutil.copy('/verif/tools/seed_demo.sh', d + '/demo.sh')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
