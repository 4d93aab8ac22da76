#!/usr/bin/env python3
"""calls.py LL OUT: functions of the crate under test reachable from each harness (before inlining)."""
import json, re, subprocess, sys
cur = None
calls = {}
pat = re.compile(r'@("[^"]+"|[\w.$]+)')
for l in open(sys.argv[1]):
    if l.startswith('define '):
        cur = pat.search(l).group(1).strip('"')
        calls[cur] = set()
    elif l.startswith('}'):
        cur = None
    elif cur is not None and '@' in l:
        calls[cur].update(x.strip('"') for x in pat.findall(l))
out = {}
names = set()
for h in calls:
    if not re.match(r'h_[a-z0-9_]+$', h):
        continue
    seen, todo = {h}, [h]
    while todo:
        for g in calls.get(todo.pop(), ()):
            if g in calls and g not in seen:
                seen.add(g)
                todo.append(g)
    out[h] = sorted(f for f in seen if '21unicode_normalization' in f)
    names.update(out[h])
names = sorted(names)
try:
    d = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True, check=True).stdout.split('\n')
except Exception:
    d = names
d = {n: re.sub(r'\[[0-9a-f]{16}\]', '', x) for n, x in zip(names, d)}
json.dump({h: sorted({d[f] for f in fs}) for h, fs in out.items()}, open(sys.argv[2], 'w'))
