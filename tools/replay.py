#!/usr/bin/env python3
"""replay.py FILE : runs a recorded counterexample (or any model of a harness) against the real crate.
Exit 0: the harness passes; 1: it fails (a check, a panic, an abort, or no end); 2: not usable."""
import ctypes, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ROOT + '/refdata/refdata.txt'

def run(profile, harness, model, timeout=60):
    """-> (code, output): 0 passes, 10 check failed, 20 model does not fit, other: crash"""
    so = f'{ROOT}/build/target-replay/{profile}/libreplay.so'
    m = ','.join(f'{k}={int(v):x}' for k, v in model.items())
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--child', so, harness, m],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 'timeout', f'no end within {timeout} s'

def child(so, harness, model):
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    lib = ctypes.CDLL(so)
    lib.replay_run.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p]
    sys.stdout.flush()
    lib.replay_run(REF.encode(), model.encode(), ctypes.cast(getattr(lib, harness), ctypes.c_void_p))

def main():
    if sys.argv[1] == '--child':
        return child(*sys.argv[2:5])
    j = json.load(open(sys.argv[1]))
    if subprocess.run(['bash', ROOT + '/tools/replay.sh']).returncode != 0:
        print('the replay library does not build')
        return 2
    bad = 0
    for p in ['release', 'debug']:
        rc, out = run(p, j['harness'], j['model'])
        print(f'[{p}] harness {j["harness"]} input {j.get("input", j["model"])}: exit {rc}\n{out.strip()}')
        if rc == 20:
            return 2
        bad |= rc != 0
    return 1 if bad else 0

if __name__ == '__main__':
    sys.exit(main())
