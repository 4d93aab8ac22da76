#!/usr/bin/env python3
"""runseeds.py [ID...]: applies each planted bug to /repo, runs the quick check of its property, undoes it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import signal
signal.signal(signal.SIGTERM, lambda *a: sys.exit(9))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
for i in ids:
    d = f'{ROOT}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE).stdout == b''
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try:
        for p in [prop] + [x for x in os.environ.get('ALSO', '').split() if x != prop]:
            r = subprocess.run(['python3', ROOT + '/check.py', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
            print(f"{i:24} {p} {'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s",
                  [l for l in r.stdout.split('\n') if 'reproduced' in l or 'ERROR' in l][-1:], flush=True)
            open(f'/tmp/seed-{i}.log', 'w').write(r.stdout)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
