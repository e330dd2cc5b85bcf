"""mkseed.py SPEC.py [ID...]: make (and confirm) the seeded changes described in SPEC.py.

SPEC.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (python source).
A change is kept when the stable tests still pass with it and the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/bug'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def tests(d):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if False else None
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-x'], cwd=d, env=dict(ENV, PYTHONPATH=d),
                       capture_output=True, text=True)
    return p.returncode == 0, p.stdout[-600:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        if os.path.exists(WORK):
            shutil.rmtree(WORK)
        shutil.copytree('/repo', WORK, symlinks=True)
        ok = True
        for f, old, new in s['edits']:
            fn = os.path.join(WORK, f)
            t = open(fn).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT matches', t.count(old), f)
                ok = False
                break
            open(fn, 'w').write(t.replace(old, new))
        if not ok:
            continue
        out = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=WORK, capture_output=True, text=True).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        shutil.copy(os.path.join(ROOT, 'tools', 'sim.py'), out)
        open(os.path.join(out, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom sim import *\n' + s['demo'].strip() + '\n')
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        t, log = tests(WORK)
        a = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd='/repo', env=ENV, capture_output=True, text=True, timeout=300)
        b = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=WORK, env=ENV, capture_output=True, text=True, timeout=300)
        good = t and a.returncode == 0 and b.returncode != 0
        print(s['id'], 'OK' if good else 'BAD', 'tests', t, 'demo clean', a.returncode, 'patched', b.returncode)
        if not good:
            print(log if not t else '', a.stdout[-600:], a.stderr[-900:], b.stdout[-300:], b.stderr[-500:])
            shutil.rmtree(out)
        elif '--check' in os.environ.get('SEED_OPTS', ''):
            r = subprocess.run(['./check', s['property'], 'quick'], cwd=ROOT, env=dict(ENV, VERIF_REPO=WORK, VERIF_SEED='1'), capture_output=True, text=True)
            print('   check exit', r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:1])
    if os.path.exists(WORK):
        shutil.rmtree(WORK)


main()
