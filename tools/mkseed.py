#!/usr/bin/env python3
"""mkseed.py SPEC.py...  : each spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo (shell text).
   Makes seeded/<id>/ after confirming, in a scratch copy of /repo, that the change builds, passes the stable tests, and that demo.sh passes without it and fails with it."""
import sys, os, subprocess, shutil, json, runpy
def sh(c, cwd, t=900): return subprocess.run(['bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
for spec in sys.argv[1:]:
    s = runpy.run_path(spec); d = '/verif/seeded/' + s['id']; w = '/repo'
    assert not sh('git status --short', w).stdout.strip(), 'repo not clean'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + s['demo']); os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    ok = True
    try:
        r = sh('bash /opt/vp/build.sh', w)
        if r.returncode: print('base build failed'); ok = False
        r = sh('bash %s/demo.sh' % d, w, 300); b0 = r.returncode
        if b0: print(s['id'], 'DEMO FAILS ON BASE:', r.stdout.decode()[-1500:]); ok = False
        for f, o, n in s['edits']:
            t = open(w + '/' + f).read(); assert t.count(o) == 1, (s['id'], f, t.count(o), o)
            open(w + '/' + f, 'w').write(t.replace(o, n))
        open(d + '/patch.diff', 'wb').write(sh('git diff', w).stdout)
        r = sh('bash /opt/vp/build.sh', w)
        if r.returncode: print(s['id'], 'DOES NOT BUILD', r.stdout.decode()[-1500:]); ok = False
        r = sh('bash /opt/vp/test.sh /tmp/seed-o.json', w); x = r.stdout.decode().strip().split('\n')[-1]
        if '3 passed' not in x: print(s['id'], 'TESTS:', x); ok = False
        r = sh('bash %s/demo.sh' % d, w, 300)
        if r.returncode == 0: print(s['id'], 'DEMO PASSES WITH BUG', r.stdout.decode()[-1500:]); ok = False
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    finally:
        sh('git checkout -- . ; bash /opt/vp/build.sh', w)
    if not ok: shutil.move(d, '/tmp/badseed-' + s['id']) if not os.path.exists('/tmp/badseed-' + s['id']) else shutil.rmtree(d)
    print(s['id'], 'ok' if ok else 'REJECTED', flush=True)
