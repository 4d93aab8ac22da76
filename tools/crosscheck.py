#!/usr/bin/env python3
"""crosscheck.py DIR: decides the queries dumped by `symx --dump DIR` again with z3 (the system's 4.8.12) and cvc5
and compares the verdicts with those of the run (in the file names)."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
fs = [os.path.join(d, f) for d, _, x in os.walk(sys.argv[1]) for f in x if f.endswith('.smt2')]
def one(f):
    want = re.search(r'_(\w+)\.smt2$', f).group(1).lower()
    out = []
    for name, cmd in (('z3', ['z3', '-T:60', f]), ('cvc5', ['cvc5', '--tlimit=60000', f])):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.split('\n')[0]
        out.append((name, want, r))
    return f, out
n = {}
with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 4) as ex:
    for f, out in ex.map(one, fs):
        for name, want, got in out:
            k = (name, want, got if got in ('sat', 'unsat') else 'no answer')
            n[k] = n.get(k, 0) + 1
            if got in ('sat', 'unsat') and want in ('sat', 'unsat') and got != want:
                print('DIFFERENT', f, name, want, got)
            elif got not in ('sat', 'unsat'):
                print('none', f, name, got[:100])
for k in sorted(n):
    print(*k, n[k])
