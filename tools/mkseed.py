#!/usr/bin/env python3
"""mkseed.py SPEC.py...: turns a bug description (tools/seeds/NAME.py) into seeded/NAME/, after
confirming in a scratch copy of /repo that it builds, passes the existing tests, and that its
demonstration passes without and fails with it.

A spec sets: prop, edits=[(file, old, new)], needs, breaks, demo (Rust statements; `use` lines in front are
provided; it must panic or exit non-zero when the property is broken)."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedrepo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
DEMO = '''#!/bin/bash
# Runs the demonstration against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies.unicode-normalization]
path = "$repo"
[workspace]
X
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline
'''
HEAD = '''#![allow(unused_imports)]
use unicode_normalization::*;
use unicode_normalization::char as uc;

'''
def sh(c, cwd, check=False, out=False):
    r = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and r.returncode: sys.exit(c + '\n' + r.stdout[-3000:])
    return r.stdout if out else r.returncode, r.stdout
base = json.load(open('/opt/vp/BASELINE.json'))
for spec in sys.argv[1:]:
    name = os.path.basename(spec)[:-3]
    ns = {}
    exec(open(spec).read(), ns)
    sh(f'rm -rf {SCR}; mkdir -p {SCR}; cp -a /repo/. {SCR}/; git -C {SCR} checkout -q -- .', '/', True)
    for f, a, b in ns['edits']:
        p = f'{SCR}/{f}'; s = open(p).read()
        n = s.count(a)
        if n != 1: sys.exit(f'{name}: {n} matches in {f} for {a!r}')
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', SCR, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    out = f'{ROOT}/seeded/{name}'
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.rs', 'w').write(HEAD + ns.get('items', '') + 'fn main() {\n' + ns['demo'] + '\n}\n')
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    bad = []
    if sh(f'bash {out}/demo.sh', '/repo')[0] != 0: bad.append('demo fails on the unchanged tree: ' + sh(f'bash {out}/demo.sh', '/repo')[1][-600:])
    rc, o = sh(f'bash {out}/demo.sh', SCR)
    if rc == 0: bad.append('demo passes with the patch')
    for feat in ['--all-features', '--no-default-features']:
        rc, t = sh(f'cargo test --workspace {feat} --no-fail-fast --offline', SCR)
        if rc: bad.append(f'tests {feat}: ' + '\n'.join(l for l in t.split('\n') if 'FAILED' in l or 'error' in l or 'panicked' in l)[:800])
    print(name, 'OK' if not bad else 'BAD ' + ' | '.join(bad), '| demo says:', o.strip()[-160:].replace('\n', ' '), flush=True)
    if bad: shutil.rmtree(out)
shutil.rmtree(SCR, ignore_errors=True)
