#!/opt/venv/bin/python
"""Run the monitor of one property: vrun.py <ID> [--tier quick|thorough] [--replay FILE] [--cases N] [--workers N].

exit 0: held on everything observed; exit 1: VIOLATION line(s); exit 2: inconclusive or error of the check."""
import argparse
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def load_meta(pid):
    """Read CASES/REQUIRED/... of a check without importing TensorFlow."""
    import ast
    src = open(os.path.join(HERE, 'vlib', 'checks', pid.lower() + '.py')).read()
    meta = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ('CASES', 'REQUIRED', 'DEADLINE', 'RULE', 'ASSUMPTIONS', 'LEVEL', 'WORKERS'):
                meta[name] = ast.literal_eval(node.value)
    return meta


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, a.only = r['seed'], r['tier'], str(r['idx'])
        a.no_evidence = True
    meta = load_meta(pid)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    ncases = a.cases or meta['CASES'][tier]
    deadline = meta.get('DEADLINE', {'quick': 300, 'thorough': 5400})[tier]
    nw = a.workers or min(meta.get('WORKERS', 8), os.cpu_count() or 1, ncases)
    if a.only:
        nw = 1
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED='0', VERIF_SCRATCH=scratch, TMPDIR=scratch, TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1',
               OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    t0 = time.time()
    procs, outs = [], []
    try:
        for w in range(nw):
            out = os.path.join(scratch, f'w{w}.jsonl')
            outs.append(out)
            wdir = os.path.join(scratch, f'cwd{w}')
            os.makedirs(wdir)
            cmd = [PY, '-m', 'vlib.worker', pid, str(a.seed), tier, str(w), str(nw), str(ncases), str(deadline), out] + ([a.only] if a.only else [])
            err = open(os.path.join(scratch, f'w{w}.err'), 'w')
            procs.append((subprocess.Popen(cmd, cwd=wdir, env=env, stdout=err, stderr=err), err))
        hard = deadline * 1.5 + 240
        for p, err in procs:
            try:
                p.wait(max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            err.close()
        rc = report(a, pid, tier, meta, outs, [p.returncode for p, _ in procs], scratch, time.time() - t0, ncases, nw)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(a, pid, tier, meta, outs, rcs, scratch, wall, ncases, nw):
    cases, errors, started = [], [], {}
    for w, out in enumerate(outs):
        ended = False
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r['status'] == 'end':
                    ended = True
                elif r['status'] == 'start':
                    started[r['idx']] = w
                else:
                    started.pop(r['idx'], None)
                    cases.append(r)
        if not ended:
            tail = open(os.path.join(scratch, f'w{w}.err')).read()[-2000:]
            errors.append(f'worker {w} ended with code {rcs[w]} (in case {[i for i, x in started.items() if x == w]}): {tail}')
    ev, counters, distinct, samples, viols = 0, {}, set(), [], []
    n_ok = n_skip = 0
    for r in sorted(cases, key=lambda r: r['idx']):
        if r['status'] == 'skipped':
            n_skip += 1
            continue
        ev += r['evaluations']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r['distinct'])
        if r['status'] == 'error':
            errors.append(f"case {r['idx']}: " + '\n'.join(r['log'])[-2500:])
        if r['status'] == 'ok':
            n_ok += 1
            if r['sample'] is not None and len(samples) < 6:
                samples.append(r['sample'] if isinstance(r['sample'], dict) else {'case': r['sample']})
        for v in r['violations']:
            viols.append((r['idx'], v, r['log']))
        if a.v:
            print(r['idx'], r['status'], r.get('t'), r['counters'], r['sample'])
            if r['log']:
                print('   ', '\n    '.join(r['log']))
    kf_path = os.path.join(HERE, 'known_findings.json')
    known = [k for k in json.load(open(kf_path)).get('known', []) if k['property'] == pid] if os.path.exists(kf_path) else []
    seen_known, real = {}, []
    for idx, v, log in viols:
        k = next((k for k in known if k['key'] == v['key']), None)
        if k is not None:
            seen_known[k['key']] = k
        else:
            real.append((idx, v, log))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ('' if k['key'] in seen_known else ' (not exercised in this run)'))
    rc = 0
    replay = None
    if real:
        rc = 1
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for idx in sorted({i for i, _, _ in real})[:5]:
            replay = os.path.join(d, f'{pid}-{tier}-{a.seed}-{idx}.json')
            with open(replay, 'w') as fh:
                json.dump({'property': pid, 'seed': a.seed, 'tier': tier, 'idx': idx, 'how': f'/verif/vrun.py {pid} --replay {replay}',
                           'violations': [v for i, v, _ in real if i == idx], 'log': next(l for i, _, l in real if i == idx)}, fh, indent=1)
            print(f'VIOLATION property={pid} replay={replay}')
        for idx, v, _ in (real if a.v else real[:3]):
            print(f"  case {idx} [{v['key']}] {v['msg'] if len(v['msg']) < 900 else v['msg'][:200] + ' ... ' + v['msg'][-700:]}")
    low = [f'{k}={counters.get(k, 0)} < {n}' for k, n in meta.get('REQUIRED', {}).get(tier, {}).items() if counters.get(k, 0) < n] if not (a.only or a.cases) else []
    if rc == 0 and (errors or low or (ev == 0)):
        rc = 2
        for e in errors[:4]:
            print(f'CHECK-ERROR property={pid} {e}')
        if low or ev == 0:
            print(f'INCONCLUSIVE property={pid} the deciding monitor saw too little: {low or "no evaluations"}')
    print(f'{pid} {tier} seed={a.seed}: {n_ok} cases ok, {n_skip} skipped, {counters.get("rejected", 0)} rejected, {ev} oracle evaluations, '
          f'{len(distinct)} distinct, {len(real)} violations, {len(errors)} errors, {wall:.1f}s {counters if a.v else ""}')
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        e = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': meta.get('LEVEL', 'exploration'),
             'coverage': {'evaluations': ev, 'distinct_nontrivial': len(distinct), 'rule': meta['RULE'], 'samples': samples[:5] or [{'none': True}],
                          'cases': n_ok, 'cases_rejected': counters.get('rejected', 0), 'cases_skipped_by_deadline': n_skip, 'observed': counters, 'workers': nw},
             'wall_s': round(wall, 1), 'violations': len(real), 'assumptions': meta.get('ASSUMPTIONS', [])}
        tmp = os.path.join(HERE, 'evidence', f'.{pid}.tmp')
        with open(tmp, 'w') as fh:
            json.dump(e, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, 'evidence', f'{pid}.json'))
    return rc


if __name__ == '__main__':
    sys.exit(main())
