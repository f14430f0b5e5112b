"""Make a planted bug from a spec file and confirm it.

    python3 tools/plant.py SPEC.py [--no-check] [--also C01,C05]

A spec sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (Python source).
Writes seeded/<spec name>/, then, in /repo: demo on the unchanged tree (must be 0), apply, build, stable tests,
demo (must not be 0), the check of the property (quick), and undo.
"""
import json
import os
import runpy
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; 1: it is not. Works on a scratch copy of the
# package, completed by the definition files beside this script.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r wilson "$t/wilson" || exit 2
tar xzf "$d/defs.tgz" -C "$t/wilson/wcxf/bases" || exit 2
mkdir "$t/work"; cd "$t/work" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$t" timeout 250 /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    r = sh('bash /opt/vp/test.sh /tmp/w/plant_tests.json | tail -1')
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    d = json.load(open('/tmp/w/plant_tests.json'))
    ok = set(d.get('passed') or [k for k, v in d.items() if v == 'passed'])
    return sorted(want - ok), r.stdout.strip()[-200:]


def main():
    spec = sys.argv[1]
    name = os.path.splitext(os.path.basename(spec))[0]
    s = runpy.run_path(spec)
    out = os.path.join(VERIF, 'seeded', name)
    assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'].lstrip())
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    sh('cd %s/sim/defs && tar --sort=name --mtime=@0 --owner=0 --group=0 -czf %s/defs.tgz $(ls | grep -v __)' % (VERIF, out))
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    confirm(name, s['PROPERTY'], '--no-check' not in sys.argv, sys.argv[sys.argv.index('--also') + 1].split(',') if '--also' in sys.argv else [])


def confirm(name, prop, check=True, also=()):
    out = os.path.join(VERIF, 'seeded', name)
    demo = 'cd /repo && bash %s/demo.sh' % out
    r = sh(demo)
    print('%s demo clean: %d %s' % (name, r.returncode, '' if r.returncode == 0 else (r.stdout + r.stderr)[-600:]))
    a = sh('git -C /repo apply %s/patch.diff' % out)
    assert a.returncode == 0, a.stderr
    try:
        b = sh('bash /opt/vp/build.sh')
        missing, line = stable()
        r = sh(demo)
        print('%s build %d, stable tests missing %s, demo patched: %d %s' % (name, b.returncode, missing, r.returncode, (r.stdout + r.stderr)[-200:].strip().replace('\n', ' | ')))
        for c in ([prop] if check else []) + list(also):
            k = sh('cd %s && ./check %s --tier quick' % (VERIF, c))
            lines = k.stdout.strip().splitlines()
            print('  %s -> %d %s' % (c, k.returncode, ' | '.join(x.strip()[:230] for x in lines[:4] + lines[-1:])))
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    if sys.argv[1] == '--confirm':
        for n in sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
            confirm(n, json.load(open(os.path.join(VERIF, 'seeded', n, 'meta.json')))['property'])
    else:
        main()
