"""Writes seeded/<id>/ folders from a description.  Usage from a description file:
   from mkseed import seed;  seed(id, prop, [(file, old, new)], needs, breaks, demo_py=...|demo_sh=..., files={name: text}, pd=True)"""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, edits, needs, breaks, demo_py=None, demo_sh=None, files=None, pd=True):
    d = os.path.join(V, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = '/tmp/pvseedwt'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for fn, old, new in edits:
        p = os.path.join(w, fn)
        s = open(p).read()
        assert s.count(old) == 1, (sid, fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    patch = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    # the changed lines must be lines of the original repository
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(patch)
    if demo_py:
        open(d + '/demo.py', 'w').write(demo_py)
        demo_sh = demo_sh or '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexec timeout 250 python3 "$D/demo.py"\n'
    open(d + '/demo.sh', 'w').write(demo_sh)
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), 'w').write(t)
    if pd:
        os.makedirs(d + '/pd')
        open(d + '/pd/__init__.py', 'w').close()
        for f in ('amf', 'rtmp', 'media', 'flv', 'tsdemux', 'mp4'):
            if os.path.exists('%s/lib/%s.py' % (V, f)):
                shutil.copy('%s/lib/%s.py' % (V, f), d + '/pd/%s.py' % f)
        shutil.copy(V + '/lib/demo_ngx.py', d + '/pd/ngx.py')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', sid)
