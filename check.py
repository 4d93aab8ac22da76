#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the harnesses of the property against /repo's working tree, executes their LLVM IR
symbolically (symx, Z3), replays what the solver reports against the native build, and writes
evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violation (replayed); 2: no answer.
"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/tools')
import catalog, replay

T0 = time.time()
QUICK_LIMIT, THOROUGH_LIMIT = 840, 860

def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)

def die(msg):
    print('ERROR:', msg, flush=True)
    sys.exit(2)

def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None

def text(model):
    return ' '.join(f'v{k}=U+{int(v):04X}' for k, v in sorted(model.items(), key=lambda x: int(x[0])))

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in catalog.P:
        die('unknown property')
    jobs = max(1, len(os.sched_getaffinity(0)))
    limit = QUICK_LIMIT if tier == 'quick' else THOROUGH_LIMIT
    must = catalog.names(prop, 'quick')
    deep = []
    if tier == 'thorough':
        must += catalog.names(prop, 'thorough')
        deep = catalog.names(prop, 'deep')
    bdir = f'{ROOT}/build/{prop}-{tier}'
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    ev_path = f'{ROOT}/evidence/{prop}.json'
    if os.path.exists(ev_path):
        os.remove(ev_path)
    symx = ROOT + '/symx/target/release/symx'
    if subprocess.run(['bash', ROOT + '/tools/setup.sh', 'symx']).returncode != 0:
        die('symx does not build')
    # the native library for replays builds while the IR is prepared
    rb = subprocess.Popen(['bash', ROOT + '/tools/replay.sh'])
    if subprocess.run(['bash', ROOT + '/tools/irbuild.sh', bdir] + must + deep).returncode != 0:
        rb.wait()
        die('the harnesses do not build against /repo')
    if rb.wait() != 0:
        die('the replay library does not build')
    log(f'{prop} {tier}: IR and native library built, {jobs} jobs')
    calls = load(bdir + '/calls.json') or {}
    known = known_findings(prop)
    cache = bdir + '/verdicts'
    done, incomplete, viol, bad = [], [], [], []
    validated = 0
    vsamples = []
    # a harness that takes long is put off until the others had their turn
    queue = [(h, 150 if tier == 'quick' else 300) for h in must] + [(h, limit) for h in deep]
    while queue:
        h, cap = queue.pop(0)
        left = limit - (time.time() - T0)
        if left < 5:
            incomplete.append((h, 'not started'))
            if h in must:
                bad.append((h, 'no time left to explore it'))
            continue
        left = min(left, cap)
        out = f'{bdir}/{h}.json'
        cmd = [symx, '--ll', bdir + '/hx2.ll', '--ref', ROOT + '/refdata/refdata.txt', '--harness', h, '--jobs', str(jobs),
               '--deadline', f'{left - 3:.0f}', '--cache', cache, '--out', out, '--max-viol', '1000' if known else '3']
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=left + 60)
            err = p.stderr
        except subprocess.TimeoutExpired:
            err = 'killed'
        j = load(out)
        if j is None:
            bad.append((h, 'executor failed: ' + err.strip()[-300:]))
            log(h, 'ERROR', err.strip()[-300:])
            continue
        j['violations'] = j['violations'][:2000]
        log(f"{h}: {'complete' if j['complete'] else 'incomplete'} {j['seconds']}s paths={j['paths']} checks={j['checks']} "
            f"queries={j['queries']} errors={j['error_count']} violations={len(j['violations'])}")
        fresh = confirm_violations(prop, h, j, known, viol, bad)
        if fresh:
            done.append(j)
            break
        if j['error_count'] and not j['timed_out']:
            bad.append((h, '; '.join(j['errors'][:3])))
            continue
        if not j['complete'] and cap < limit:
            queue.append((h, limit))
            continue
        if not j['complete']:
            incomplete.append((h, f"{j['paths']} paths explored"))
            if h in must:
                bad.append((h, 'not explored within the time'))
            continue
        # the executor is checked against the real code on models of its own paths
        for s in j['samples'][:4 if tier == 'quick' else 12]:
            rc, o = replay.run('release', h, s['model'])
            seen = [int(x.split()[1]) for x in o.split('\n') if x.startswith('reach ')]
            if rc != 0 or seen != s['reach']:
                bad.append((h, f"native run of {text(s['model'])} differs: exit {rc}, {o.strip()[-200:]}, expected marks {s['reach']}"))
                break
            validated += 1
            if len(vsamples) < 6 and (not vsamples or vsamples[-1]['harness'] != h):
                vsamples.append({'harness': h, 'input': text(s['model']), 'marks': s['reach'], 'native': 'agrees'})
        if not j['reached']:
            bad.append((h, 'nothing reached: vacuous'))
        done.append(j)
    evidence(prop, tier, must, deep, done, incomplete, bad, viol, validated, vsamples, calls, jobs, ev_path)
    shutil.rmtree(bdir, ignore_errors=True)
    for k in known:
        if k.get('seen'):
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
    if viol:
        for v in viol:
            print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
        sys.exit(1)
    if bad:
        for h, e in bad:
            print(f'ERROR: {h}: {e}')
        sys.exit(2)
    log(f'{prop} {tier}: held; {len(done)} harnesses explored completely')
    sys.exit(0)

def known_findings(prop):
    """lines: finding: property=<id> harness=<h> kind=<k> model=<v=hex,...> <what>"""
    out = []
    try:
        lines = open(ROOT + '/known-findings.txt').read().split('\n')
    except OSError:
        return out
    for l in lines:
        if l.startswith('finding: '):
            f = l.split(' ', 5)
            d = dict(x.split('=', 1) for x in f[1:5])
            if d['property'] == prop:
                d['what'] = f[5] if len(f) > 5 else ''
                out.append(d)
    return out

def confirm_violations(prop, h, j, known, viol, bad):
    """replays natively; True if a violation that is not listed reproduces"""
    fresh = False
    for v in j['violations']:
        m = ','.join(f'{k}={int(x):x}' for k, x in sorted(v['model'].items(), key=lambda x: int(x[0])))
        k = next((k for k in known if k['harness'] == h and k['model'] == m), None)
        if k:
            k['seen'] = True
            continue
        res = {}
        for p in ['release', 'debug']:
            res[p] = replay.run(p, h, v['model'])
            if res[p][0] not in (0, 20):
                break
        rep = [p for p in res if res[p][0] not in (0, 20)]
        if not rep:
            bad.append((h, f"reported {v['kind']} {v['detail']} for {text(v['model'])} does not reproduce natively"))
            continue
        os.makedirs(ROOT + '/build/replays', exist_ok=True)
        path = f'{ROOT}/build/replays/{prop}-{h}-{len(viol)}.json'
        rec = {'property': prop, 'harness': h, 'kind': v['kind'], 'detail': v['detail'], 'model': v['model'],
               'input': text(v['model']), 'bounds': catalog.P[prop]['bounds'],
               'native': {p: {'exit': r[0], 'output': r[1][-1500:]} for p, r in res.items()},
               'how': f'python3 tools/replay.py {os.path.relpath(path, ROOT)}  (runs the harness on this input against /repo)'}
        json.dump(rec, open(path, 'w'), indent=1)
        log(f"{h}: {v['kind']} {v['detail']} with {text(v['model'])}: reproduced natively ({rep[0]}: exit {res[rep[0]][0]}) "
            f"{res[rep[0]][1].strip()[-200:]}")
        viol.append({'harness': h, 'replay': path, 'input': text(v['model'])})
        fresh = True
        break
    return fresh

def evidence(prop, tier, must, deep, done, incomplete, bad, viol, validated, vsamples, calls, jobs, path):
    def tot(k):
        return int(sum(j.get(k, 0) for j in done))
    per = [{
        'harness': j['harness'], 'paths': j['paths'], 'decisions': j['forks'], 'assertions': j['checks'],
        'queries': j['queries'], 'sat': j['sat'], 'unsat': j['unsat'], 'solver_seconds': round(j['solver_seconds'], 3),
        'seconds': j['seconds'], 'complete': j['complete'], 'reached': j['reached'],
    } for j in done]
    fns = sorted({f for j in done for f in calls.get(j['harness'], [])})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('forks'),
            'traces_validated_against_impl': validated,
            'samples': vsamples or [{'note': 'none'}],
            'bounds': catalog.P[prop]['bounds'],
            'outside': 'longer texts and more unrestricted positions than the bounds; other Unicode versions; cargo features other than default',
            'functions_encoded': fns,
            'harnesses_required': len(must), 'harnesses_complete': sum(j['complete'] for j in done),
            'harnesses': per,
            'not_explored': [{'harness': h, 'why': w} for h, w in incomplete],
            'errors': [{'harness': h, 'what': w} for h, w in bad],
            'instructions_executed': tot('instructions'),
            'assertions': tot('checks'),
            'assertions_concrete_on_their_path': tot('checks_const'),
            'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'),
            'domain_splits_put_to_solver': tot('splits'), 'domain_splits_confirmed_unsat': tot('split_confirms'),
            'domain_splits_too_large_for_solver': tot('split_skipped'),
            'assertions_confirmed_by_solver': tot('confirms'),
            'decided_by_exhaustive_product': tot('decided_product'),
            'solver_seconds': round(sum(j.get('solver_seconds', 0) for j in done), 2),
            'solver': 'Z3 ' + (done[0]['solver'] if done else ''),
            'jobs': jobs,
        },
        'assumptions': [
            'refdata/refdata.txt states Unicode 16.0 correctly (cross-checked from independent sources when it was made)',
            'the LLVM IR of the debug-assertion build at O2 (no vectorization) means what the compiled crate does; undefined bytes read as 0',
            'single-character conditions are split by evaluation over the whole domain and each split is put to Z3 as a query; the number '
            'too large to encode is reported',
        ],
        'wall_s': round(time.time() - T0, 2),
        'violations': len(viol),
    }
    json.dump(ev, open(path, 'w'), indent=1)

if __name__ == '__main__':
    main()
