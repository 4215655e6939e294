#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seeds_spec.py and validates each planted bug in a scratch copy of /repo.

usage: seed.py [ids...]      (default: all that do not exist yet;  --check ids: also runs the property's check on it)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds_spec  # noqa

DEMO = '''#!/bin/bash
# run with cwd = repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec "$py" "$here/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})})


def main():
    args = sys.argv[1:]
    chk = '--check' in args
    args = [a for a in args if a != '--check']
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in seeds_spec.SEEDS:
        d = os.path.join(V, 'seeded', s['id'])
        if args and s['id'] not in args or not args and os.path.exists(d):
            continue
        tmp = tempfile.mkdtemp(prefix='seed')
        try:
            w = os.path.join(tmp, 'repo')
            subprocess.check_call(['git', 'clone', '-q', '/repo', w])
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(w, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT', f, t.count(old))
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            os.makedirs(d, exist_ok=True)
            diff = sh('git diff', w).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            bad = sh(f'bash {d}/demo.sh', w)
            good = sh(f'bash {d}/demo.sh', '/repo')
            t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1', w, {'PYTHONPATH': w + '/src', 'PYTHONDONTWRITEBYTECODE': '1'})
            c = ''
            if chk:
                r = sh(f'python3 {V}/sa/check.py {s["property"]}', V, {'SA_REPO': w})
                c = f'check={r.returncode}'
            print(s['id'], s['property'], 'good' if good.returncode == 0 else 'CLEAN-FAILS ' + good.stderr[-200:], 'bad' if bad.returncode else 'NOT-DETECTED', t.stdout.strip(), c, flush=True)
        finally:
            shutil.rmtree(tmp)


main()
