#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it): single-token changes to /repo's sources,
each tried in a scratch copy; those that compile and pass the test suite are run against the checks.
usage: mutate.py OUT.jsonl [--workers N] [--stride K] [--offset J] [--files substr,...] [--own]"""
import sys, re, os, json, subprocess, shutil, random, argparse, threading, queue, glob
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--workers', type=int, default=4); ap.add_argument('--stride', type=int, default=1)
ap.add_argument('--offset', type=int, default=0); ap.add_argument('--files', default=''); ap.add_argument('--list', action='store_true')
ap.add_argument('--only', default=''); ap.add_argument('--skiptests', action='store_true'); ap.add_argument('--checks', default='')
A = ap.parse_args()
REPO = '/repo'
files = [f for f in subprocess.check_output(['git', '-C', REPO, 'ls-files', 'src'], text=True).split()
         if f.endswith('.rs') and '/tests/' not in f and not f.endswith('mod.rs') and not f.endswith('lib.rs')]
if A.files: files = [f for f in files if any(x in f for x in A.files.split(','))]
def mask(s):
    s = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group()), s)
    return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + ' ' * (len(m.group()) - 2) + '"', s)
NUM = re.compile(r'(?<![\w.])(\d+\.\d+|\d+)(?![\w.])')
def muts(f):
    s = open(f'{REPO}/{f}').read(); m = mask(s); out = []
    def add(a, b, new, kind): out.append((f, a, b, new, kind))
    for x in NUM.finditer(m):
        t = x.group()
        if '.' in t:
            v = float(t)
            add(x.start(), x.end(), repr(v + 1.0) if v == int(v) else repr(v * 1.02), 'num')
            if v != 0: add(x.start(), x.end(), repr(v * 0.999), 'num-')
        else:
            v = int(t); add(x.start(), x.end(), str(v + 1), 'num')
            if v > 0: add(x.start(), x.end(), str(v - 1), 'num-')
    for pat, news in [(r' <= ', [' < ']), (r' >= ', [' > ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' == ', [' != ']), (r' != ', [' == ']),
                      (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' % ', [' / ']),
                      (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.round\(\)', ['.floor()', '.ceil()']), (r'\.floor\(\)', ['.ceil()', '.round()']),
                      (r'\.abs\(\)', ['']), (r'\bbreak;', ['continue;', '']), (r'\bcontinue;', ['break;', '']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' ^ '] ),
                      (r'_palette\b', ['_PAL_']), (r'(?<=[ (])!(?=[a-zS(])', ['']), (r'(?<=[ (\[])-(?=[a-z0-9(])', [''])]:
        for x in re.finditer(pat, m):
            for n in news:
                if n == '_PAL_': continue
                add(x.start(), x.end(), n, pat.strip())
    # statement deletion: whole line assignments / calls
    pos = 0
    for ln in m.split('\n'):
        st = ln.strip()
        if re.match(r'^(self\.|\*?[a-z_\[\]]+(\[[^\]]*\])* (\+|-)?= |[a-z_.]+\.(push|insert|clear)\()', st) and st.endswith(';'):
            a = pos + len(ln) - len(ln.lstrip()); add(a, pos + len(ln), ';', 'del')
        pos += len(ln) + 1
    return out
M = []
for f in sorted(files): M += muts(f)
random.Random(7).shuffle(M)
M = list(enumerate(M))
if A.only: ids = set(map(int, A.only.split(','))); M = [x for x in M if x[0] in ids]
else: M = M[A.offset::A.stride]
print(len(M), 'mutants', flush=True)
if A.list: sys.exit()
done = set()
if os.path.exists(A.out):
    for l in open(A.out): done.add(json.loads(l)['id'])
PRI = {'hct/': ['C04','C02','C01','C05','C10','C03'], 'cam16': ['C05','C10','C24'], 'utils/color': ['C06','C07'], 'utils/math': ['C08'], 'utils/string': ['C09'], 'contrast/': ['C11'], 'blend': ['C24'], 'dislike': ['C23'],
       'dynamic': ['C12','C14','C15','C17','C29','C13'], 'palettes': ['C18','C19','C20','C29'], 'scheme/': ['C16','C20','C12'], 'score': ['C28','C27'], 'temperature': ['C21','C22','C16'], 'quantize': ['C26','C25','C27'], 'viewing': ['C10','C05']}
ALLC = ['C%02d' % i for i in range(1, 31)]
q = queue.Queue()
for x in M:
    if x[0] not in done: q.put(x)
lock = threading.Lock()
def sh(cmd, cwd, env, to):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ''
def worker(k):
    W = f'/tmp/mut/w{k}'
    if not os.path.exists(W):
        os.makedirs(W)
    shutil.rmtree(f'{W}/repo', ignore_errors=True); shutil.rmtree(f'{W}/mc/src', ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', REPO, f'{W}/repo'], check=True)
    os.makedirs(f'{W}/mc', exist_ok=True)
    shutil.copytree('/verif/mc/src', f'{W}/mc/src')
    for n in ('Cargo.toml', 'Cargo.lock'):
        open(f'{W}/mc/{n}', 'w').write(open(f'/verif/mc/{n}').read().replace('"/repo"', f'"{W}/repo"'))
    shutil.copy('/verif/known_findings.txt', W); os.makedirs(f'{W}/evidence', exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', MC_VERIF=W, MC_THREADS=str(max(1, 8 // A.workers)), CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    while True:
        try: i, (f, a, b, new, kind) = q.get_nowait()
        except queue.Empty: return
        src = open(f'{REPO}/{f}').read()
        open(f'{W}/repo/{f}', 'w').write(src[:a] + new + src[b:])
        ln = src[:a].count('\n') + 1
        L0 = src.rfind('\n', 0, a) + 1; L1 = src.find('\n', b)
        rec = dict(id=i, file=f, line=ln, kind=kind, old=src[L0:L1].strip(), new=(src[L0:a] + new + src[b:L1]).strip())
        status = None
        if not A.skiptests:
            rc, o = sh(['cargo', 'test', '--offline', '--locked', '--target-dir', f'{W}/tt', '-q', '--', '--test-threads', '2'], f'{W}/repo', env, 240)
            if rc != 0:
                status = 'nocompile' if 'could not compile' in o else 'tests'
        if status is None:
            rc, o = sh(['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', f'{W}/mt', '-q'], f'{W}/mc', env, 300)
            if rc != 0: status = 'mcbuild'
        if status is None:
            order = []
            for key, v in PRI.items():
                if key in f: order += [c for c in v if c not in order]
            order += [c for c in ALLC if c not in order]
            if A.checks: order = A.checks.split(',')
            status = 'SURVIVED'
            for c in order:
                rc, o = sh([f'{W}/mt/release/mc', c, 'quick'], W, env, 900)
                if rc == 1: status = c; break
                if rc != 0: status = f'{c}(rc={rc})'; break
        open(f'{W}/repo/{f}', 'w').write(src)
        rec['status'] = status
        with lock:
            open(A.out, 'a').write(json.dumps(rec) + '\n')
            print(status, f, ln, '|', rec['new'][:110], flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(A.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
