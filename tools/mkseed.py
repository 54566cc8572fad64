"""mkseed.py DIR: turn DIR/edit.py-style seed descriptions into /verif/seeded entries, confirming each.

Usage: python3 tools/mkseed.py seeds.py   -- seeds.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Confirms in a scratch copy of /repo: the patch applies, the tests pass, the demo passes without and fails with it."""
import json, os, runpy, shutil, subprocess, sys
S = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
W = '/tmp/seedwork'
OUT = '/verif/seeded'

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
for s in S:
    if only and s['id'] not in only:
        continue
    if os.path.exists(W):
        shutil.rmtree(W)
    os.makedirs(W)
    sh('cp -a /repo %s/repo' % W)
    r = W + '/repo'
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(r, f)
        t = open(p, newline='').read()
        if t.count(old) != 1:
            print(s['id'], 'EDIT: %d occurrences in %s' % (t.count(old), f)); ok = False; break
        open(p, 'w', newline='').write(t.replace(old, new))
    if not ok:
        continue
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    rc, diff = sh('git diff', r)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('import os, sys, tempfile, logging, io\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nlogging.disable(logging.CRITICAL)\n' + s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    rc, o = sh('PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -1', r)
    a, oa = sh('sh %s/demo.sh' % d, '/repo')
    b, ob = sh('sh %s/demo.sh' % d, r)
    base = set(sh("cd /repo && git grep -h '' 2208a4c -- " + ' '.join(sorted({e[0] for e in s['edits']})))[1].splitlines())
    orig = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    nonorig = [l for l in orig if l not in base]
    rc3, _ = sh('git apply --check %s/patch.diff' % d, '/repo')
    print(s['id'], 'tests:', o.strip().splitlines()[-1:], 'demo clean rc', a, 'patched rc', b, 'applies', rc3 == 0, ('NONORIG %r' % nonorig[:2]) if nonorig or not orig else '', '' if a == 0 and b else 'BAD ' + (oa if a else ob)[-300:])
