"""Turns an edit of /repo into a planted bug under seeded/: checks that it builds, passes the stable tests and that its demonstration tells the two trees apart.

usage: from mkseed import seed; seed(id, property, file, old, new, demo, needs, breaks)"""
import json, os, shutil, subprocess, tempfile

RUN = '''#!/bin/bash
# run in /repo: exit 0 when the property holds on the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export PYTHONPATH="$PWD/blueprint/src/python" MPLBACKEND=Agg MPLCONFIGDIR="$tmp" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd blueprint/src || exit 2
timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True)


def seed(sid, prop, edits, demo, needs, breaks):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed')
    rc = tmp + '/repo'
    try:
        shutil.copytree('/repo', rc, symlinks=True)
        open(d + '/demo.sh', 'w').write(RUN)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        r = sh(f'bash {d}/demo.sh', rc)
        if r.returncode != 0:
            print(sid, 'DEMO FAILS ON THE CLEAN TREE', r.stdout[-500:], r.stderr[-1500:]); return False
        for f, old, new in edits:
            p = f'{rc}/blueprint/src/python/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'edit matches', s.count(old), 'times:', old); return False
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', rc).stdout)
        t = open('/opt/vp/test.sh').read().replace('/repo', rc)
        open(tmp + '/t.sh', 'w').write(t)
        b = open('/opt/vp/build.sh').read().replace('/repo', rc)
        open(tmp + '/b.sh', 'w').write(b)
        if sh(f'bash {tmp}/b.sh').returncode != 0:
            print(sid, 'BUILD FAILS'); return False
        o = sh(f'bash {tmp}/t.sh {tmp}/o.json').stdout
        if '23 passed, 4 failed' not in o:
            print(sid, 'TESTS', o[-300:]); return False
        r = sh(f'bash {d}/demo.sh', rc)
        if r.returncode == 0:
            print(sid, 'DEMO PASSES WITH THE PATCH', r.stdout[-500:]); return False
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        cr = subprocess.run(['/verif/check', prop, 'quick'], env=dict(os.environ, PYVC_REPO=rc), capture_output=True, text=True)
        v = [l for l in cr.stdout.splitlines() if l.startswith('VIOLATION')]
        print(sid, 'ok; demo:', (r.stdout + r.stderr).strip().splitlines()[-1][:150], '| check', prop, cr.returncode, v[0] if v else cr.stdout[-200:])
        return True
    finally:
        shutil.rmtree(tmp)
