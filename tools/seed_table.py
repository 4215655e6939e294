"""rewrite the table of planted bugs in DESIGN.md from seeded/ and a log of 'id property rc=N' lines"""
import json, os, re, sys
log = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d+) rc=(\d+)', l)
    if m:
        log[m[1]] = m[3]
by = {}
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    by.setdefault(m['property'], []).append((d, m['what_it_breaks'], m['needs']))
out = ['## Planted bugs', '', 'One line per bug in seeded/: what it breaks, what it needs. All are caught by the quick check of their property except those marked MISSED.', '']
for p in sorted(by):
    out.append(f'* **{p}**')
    for d, w, n in by[p]:
        out.append(f"  * {d}{'' if log.get(d) == '1' else ' (MISSED)' if d in log else ' (not run)'}: {w}; needs {n}")
s = open('/verif/DESIGN.md').read()
i = s.find('## Planted bugs')
j = s.find('\n## ', i + 5) if i >= 0 else -1
t = '\n'.join(out) + '\n'
if i >= 0:
    s = s[:i] + t + (s[j:] if j >= 0 else '')
else:
    s = s.rstrip() + '\n\n' + t
open('/verif/DESIGN.md', 'w').write(s)
