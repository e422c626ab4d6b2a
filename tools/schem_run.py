#!/usr/bin/env python3
"""Run the mutants of a schemata build (see tools/schemata): tests first, then the checks until one reports.
usage: schem_run.py OUT.jsonl TESTBIN MCBIN MUTANTS.tsv [--workers N] [--stride K] [--ids FILE] [--checks C01,..] [--all]"""
import sys, os, json, subprocess, argparse, threading, queue, random
ap = argparse.ArgumentParser()
for x in ('out', 'testbin', 'mcbin', 'tsv'): ap.add_argument(x)
ap.add_argument('--workers', type=int, default=4); ap.add_argument('--stride', type=int, default=1); ap.add_argument('--offset', type=int, default=0)
ap.add_argument('--ids', default=''); ap.add_argument('--checks', default=''); ap.add_argument('--all', action='store_true'); ap.add_argument('--skiptests', action='store_true')
ap.add_argument('--match', default=''); ap.add_argument('--pri', action='store_true')
A = ap.parse_args()
M = [l.rstrip('\n').split('\t') for l in open(A.tsv)]
M = [(int(m[0]), m[1], m[2]) for m in M]
random.Random(5).shuffle(M)
if A.match: M = [m for m in M if any(x in m[1] for x in A.match.split(','))]
if A.ids:
    ids = set(open(A.ids).read().split()); M = [m for m in M if str(m[0]) in ids]
else: M = M[A.offset::A.stride]
done = set()
if os.path.exists(A.out):
    for l in open(A.out): done.add(json.loads(l)['id'])
PRI = {'hct_solver': ['C04','C03','C02','C01'], 'hct/hct.rs': ['C04','C29','C03','C01'], 'viewing': ['C10','C05'], 'cam16': ['C05','C10'], 'utils/color': ['C07','C06'], 'utils/math': ['C08'], 'utils/string': ['C09'], 'contrast/': ['C11'], 'blend': ['C24'], 'dislike': ['C23'],
       'dynamic': ['C31','C14','C12','C29','C16','C15'], 'palettes': ['C19','C29','C18','C20'], 'scheme/': ['C16','C20','C12'], 'score': ['C28','C27'], 'temperature': ['C21','C22','C16'], 'quantize': ['C26','C25','C27']}
ALLC = ['C%02d' % i for i in range(1, 32)]
q = queue.Queue(); [q.put(m) for m in M if m[0] not in done]
print(q.qsize(), 'mutants', flush=True)
lock = threading.Lock()
def sh(cmd, env, to):
    try: return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, text=True, errors='replace', cwd='/tmp').returncode
    except subprocess.TimeoutExpired: return 124
def worker(k):
    W = f'/tmp/mut/r{k}'; os.makedirs(W + '/evidence', exist_ok=True); open(W + '/known_findings.txt', 'a')
    while True:
        try: i, loc, what = q.get_nowait()
        except queue.Empty: return
        env = dict(os.environ, MUT=str(i), MC_VERIF=W, MC_THREADS=str(max(1, 8 // A.workers)))
        st, caught = None, []
        if not A.skiptests:
            if sh([A.testbin, '-q', '--test-threads', '2', '--skip', 'scheme_correctness_test', '--skip', 'parametic_testing'], env, 25) != 0: st = 'tests'
        if st is None:
            order = []
            for key, v in PRI.items():
                if key in loc: order += [c for c in v if c not in order]
            if not A.pri: order += [c for c in ALLC if c not in order]
            if A.checks: order = A.checks.split(',')
            for c in order:
                rc = sh([A.mcbin, c, 'quick'], env, 600)
                if rc == 1: caught.append(c)
                elif rc != 0: caught.append(f'{c}(rc={rc})')
                if caught and not A.all: break
            st = ','.join(caught) or 'SURVIVED'
            if st == 'SURVIVED' and not A.skiptests and sh([A.testbin, '-q', '--test-threads', '2'], env, 120) != 0: st = 'tests'
        with lock:
            open(A.out, 'a').write(json.dumps(dict(id=i, loc=loc, what=what, status=st)) + '\n')
            if st != 'tests': print(st, i, loc, '|', what[:120], flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(A.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
