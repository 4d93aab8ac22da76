#!/usr/bin/env python3
"""validate.py [N [SEED]]: runs N texts (from the repository's conformance data and random ones) through the
executor and through the native build and compares everything every adaptor and predicate yields.
A test of the executor, not a check of a property."""
import json, os, random, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
import replay
n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
src = open('/repo/tests/data/normalization_tests.rs').read()
texts = [re.findall(r'\\u\{([0-9a-fA-F]+)\}', m) for m in re.findall(r'"((?:\\u\{[0-9a-fA-F]+\})+)"', src)]
texts = [[int(x, 16) for x in t] for t in texts]
pool = sorted({c for t in texts for c in t})
out = ROOT + '/build/validate'
os.makedirs(out, exist_ok=True)
subprocess.run(['bash', ROOT + '/tools/irbuild.sh', out, 'h_dump_all'], check=True)
subprocess.run(['bash', ROOT + '/tools/replay.sh'], check=True)
bad = 0
for i in range(n):
    k = i % 3
    if k == 0:
        t = rnd.choice(texts)
    elif k == 1:
        t = [rnd.choice(pool) for _ in range(rnd.randint(0, 10))]
    else:
        t = []
        while len(t) < rnd.randint(1, 12):
            c = rnd.choice([rnd.randrange(0x110000), rnd.randrange(0x3000), rnd.randrange(0x300, 0x370)])
            if not 0xD800 <= c < 0xE000:
                t.append(c)
    t = t[:18]
    m = {'0': len(t), **{str(j + 1): c for j, c in enumerate(t)}}
    o = out + '/o.json'
    subprocess.run([ROOT + '/symx/target/release/symx', '--ll', out + '/hx2.ll', '--ref', ROOT + '/refdata/refdata.txt', '--harness', 'h_dump_all',
                    '--fix', ','.join(f'{m[str(a)]:x}' for a in range(len(m))), '--out', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    j = json.load(open(o))
    rc, txt = replay.run('release', 'h_dump_all', m)
    nat = [int(x.split()[1]) for x in txt.split('\n') if x.startswith('reach ')]
    got = j['samples'][0]['reach'] if j['samples'] else None
    if rc != 0 or got != nat or j['error_count']:
        bad += 1
        print('DIFFERENT', ' '.join(f'{c:04X}' for c in t), got, nat, j['errors'][:1])
print(f'{n} texts, {bad} different')
sys.exit(bad > 0)
