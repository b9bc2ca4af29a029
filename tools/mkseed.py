"""mkseed.py SPEC.py : build seeded/<id>/ from a spec (variables ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO) and try its demo on a scratch copy.

EDITS = [(file, old, new)], each old occurring exactly once. DEMO = text of demo.py (run with cwd = the tree)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exit 0 iff the property holds in this demonstration. cwd = the source tree.
D=$(cd "$(dirname "$0")" && pwd)
H=$(mktemp -d /tmp/demo_XXXXXX); trap 'rm -rf "$H"' EXIT
export HOME=$H TMPDIR=$H PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/bin:/bin
unset XDG_CONFIG_HOME XDG_DATA_HOME
python -m marcel.main </dev/null >/dev/null 2>&1
exec_demo() { timeout 120 python "$D/demo.py"; }
exec_demo
'''
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join(VERIF, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedwt_')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
        t = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
        for f, old, new in s['EDITS']:
            p = os.path.join(t, f)
            x = open(p).read()
            assert x.count(old) == 1, (s['ID'], f, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        diff = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(s.get('SH', SH))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if 'DEMO' in s:
            open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
        json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = subprocess.run([os.path.join(d, 'demo.sh')], cwd=t, capture_output=True, text=True)
        subprocess.run(['git', '-C', t, 'checkout', '-q', '--', '.'], check=True)
        good = subprocess.run([os.path.join(d, 'demo.sh')], cwd=t, capture_output=True, text=True)
        print(s['ID'], 'patched:', bad.returncode, 'clean:', good.returncode, 'OK' if bad.returncode and not good.returncode else 'BAD')
        if good.returncode or not bad.returncode:
            print(good.stdout[-800:], good.stderr[-800:], bad.stdout[-300:], bad.stderr[-300:])
        if '--check' in os.environ.get('SEED_OPTS', ''):
            subprocess.run(['git', '-C', t, 'apply', os.path.join(d, 'patch.diff')], check=True)
            r = subprocess.run([os.path.join(VERIF, 'bin/check'), s['PROPERTY']], env={**os.environ, 'MC_REPO': t}, capture_output=True, text=True)
            print('  check', s['PROPERTY'], 'exit', r.returncode, r.stdout[:300])
    finally:
        shutil.rmtree(w)
