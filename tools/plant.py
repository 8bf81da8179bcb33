#!/usr/bin/env python3
"""plant.py <id>: build seeded/<id> from a spec dict in /tmp/plants/<id>.py and confirm it in a scratch copy.
spec: prop, needs, breaks, edits=[(file, old, new)], demo=python source (exit 0 when right)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
. /opt/vp/env.sh
exec timeout 200 "$PY" -W ignore "$(dirname "$0")/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(id):
    ns = {}
    exec(open('/tmp/plants/%s.py' % id).read(), ns)
    w = '/tmp/plantw/%s' % id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh('cp -a /repo %s/repo' % w)
    r = w + '/repo'
    sh('git -C %s checkout -q -- .' % r)
    d = '%s/seeded/%s' % (HERE, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(ns['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ns_ = "unshare -m sh -c 'mount --bind %s /repo && cd /repo && %%s'" % r
    demo = ns_ % ('bash /opt/vp/build.sh >/dev/null 2>&1; sh %s/demo.sh' % d)
    a = sh(demo)
    for f, old, new in ns['edits']:
        s = open(r + '/' + f).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(r + '/' + f, 'w').write(s.replace(old, new))
    p = sh('git -C %s diff' % r)
    open(d + '/patch.diff', 'w').write(p.stdout)
    b = sh(demo)
    sh(ns_ % ('bash /opt/vp/test.sh %s/o.json' % w))
    o = json.load(open(w + '/o.json'))
    ok = set(o['passed']) if 'passed' in o else {k for k, v in o.items() if v in ('passed', True)}
    miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]
    print(id, 'clean rc', a.returncode, 'patched rc', b.returncode, 'missing tests', miss[:5], len(ok))
    if a.returncode or not b.returncode or os.environ.get('SHOW'):
        print(a.stdout[-800:], a.stderr[-800:], b.stdout[-500:], b.stderr[-500:])


for i in sys.argv[1:]:
    main(i)
