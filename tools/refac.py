#!/usr/bin/env python3
"""Behaviour-preserving edits (tools/refac_spec.py): every check has to stay quiet on them.

usage: refac.py [-p C01,C02] [ids...]   prints per edit and check: exit code, proved/refuted/undecided"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import refac_spec  # noqa

ALL = ['C%02d' % i for i in range(1, 28) if i != 25]
BYFILE = {'signature': ALL, 'tone': ['C03', 'C04', 'C05', 'C06', 'C07', 'C11', 'C13', 'C17', 'C19', 'C20', 'C23'], 'note': ['C03', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C17', 'C20', 'C21', 'C19'],
          'core/track': ['C03', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C17', 'C18', 'C19', 'C21', 'C23', 'C24', 'C27'], 'midi': ['C03', 'C07'] + ALL[11:19] + ['C22', 'C23', 'C27'], 'chord': ['C07', 'C20', 'C23'], 'processing': ['C07', 'C21', 'C24'], 'scripts': ['C26']}


def main():
    a = sys.argv[1:]
    props = None
    if a and a[0] == '-p':
        props = a[1].split(',')
        a = a[2:]
    for r in sorted(refac_spec.REFAC, key=lambda r: a.index(r['id']) if r['id'] in a else 0):
        if a and r['id'] not in a:
            continue
        tmp = tempfile.mkdtemp(prefix='refac')
        try:
            w = os.path.join(tmp, 'repo')
            subprocess.check_call(['git', 'clone', '-q', '/repo', w])
            ps, bad = set(), False
            for f, old, new in r['edits']:
                p = os.path.join(w, f)
                t = open(p).read()
                if old is None:
                    t = new
                elif t.count(old) < 1:
                    print(r['id'], 'EDIT not found in', f, repr(old[:60]))
                    bad = True
                    break
                else:
                    t = t.replace(old, new)
                open(p, 'w').write(t)
                for k, l in BYFILE.items():
                    if k in f:
                        ps |= set(l)
            if bad:
                continue
            env = {**os.environ, 'PYTHONPATH': w + '/src', 'PYTHONDONTWRITEBYTECODE': '1', 'SA_REPO': w, 'SA_EVIDENCE': tmp}
            t = subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1', shell=True, cwd=w, env=env, capture_output=True, text=True).stdout.strip()
            res = []
            for p in (props or sorted(ps)):
                o = subprocess.run(['python3', os.path.join(V, 'sa/check.py'), p], env=env, capture_output=True, text=True, cwd=V)
                m = re.search(r'(\d+) proved, (\d+) refuted, (\d+) undecided \(([\d.]+)s', o.stdout)
                res.append(f'{p}:' + ('' if o.returncode == 0 else f'EXIT{o.returncode}!! ') + (f'{m[1]}/{m[3]}u' + (f' {m[4]}s' if float(m[4]) > 40 else '') if m else o.stderr[-200:]))
            print(r['id'], '|', t, '|', ' '.join(res), flush=True)
        finally:
            shutil.rmtree(tmp)


main()
