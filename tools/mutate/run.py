#!/usr/bin/env python3
"""Development aid: apply mutants to scratch copies of /repo, run the analyser on each,
list the survivors that compile and pass the existing tests.
usage: run.py OUT.json PROPS(all or comma list) [-n SAMPLE] FILES..."""
import json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
out, props = sys.argv[1], sys.argv[2]
files = sys.argv[3:]
n = 0
if files[0] == '-n':
    n = int(files[1]); files = files[2:]
here = os.path.dirname(os.path.abspath(__file__))
files = [f for f in files if not f.endswith('_test.go')]
subprocess.check_call(['go', 'build', '-o', '/tmp/mutgen', here + '/main.go'])
ms = [json.loads(l) for l in subprocess.check_output(['/tmp/mutgen'] + files, cwd='/repo', text=True).splitlines()]
random.seed(int(os.environ.get('SEED', '1')))
if n and len(ms) > n:
    ms = random.sample(ms, n)
W = int(os.environ.get('W', '7'))
pool = queue.Queue()
for i in range(W):
    d = '/tmp/mut%d' % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    pool.put(d)
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local', GOMAXPROCS='2')
def one(m):
    d = pool.get()
    try:
        p = os.path.join(d, m['File'])
        src = open(os.path.join('/repo', m['File']), 'rb').read()
        open(p, 'wb').write(src[:m['Off']] + m['New'].encode() + src[m['End']:])
        try:
            m['old'] = src[m['Off']:m['End']].decode()
            pkg = './' + os.path.dirname(m['File'])
            if subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True).returncode:
                m['r'] = 'nocompile'; return m
            try:
                r = subprocess.run([os.environ.get('VC', '/verif/.bin/vc'), '-verif', '/verif', '-repo', d, '-all'] + ([] if props == 'all' else ['-only', props]), env=env, capture_output=True, text=True, timeout=600)
                killed = [l.split()[0] for l in r.stdout.splitlines() if l.startswith('P') and 'violated=' in l and 'violated=0' not in l]
                if r.returncode not in (0, 1) or 'panic' in r.stderr:
                    m['r'] = 'crash'; m['o'] = r.stderr[-2000:]; return m
            except subprocess.TimeoutExpired:
                m['r'] = 'timeout'; return m
            if killed:
                m['r'] = 'killed'; m['by'] = killed; return m
            try:
                t = subprocess.run(['go', 'test', './...'], cwd=d, env=env, capture_output=True, text=True, timeout=120)
                bad = [l for l in t.stdout.splitlines() if l.startswith('FAIL') and 'wit/parse' not in l and l != 'FAIL']
                fails = {l.split()[2] for l in t.stdout.splitlines() if l.strip().startswith('--- FAIL')}
                base = {x for x in fails if x.split('/')[0] in ('TestParser', 'TestParseFail')}
                m['r'] = 'tests' if bad or (fails - base) else 'SURVIVED'
            except subprocess.TimeoutExpired:
                m['r'] = 'tests'
            return m
        finally:
            open(p, 'wb').write(src)
    finally:
        pool.put(d)
with ThreadPoolExecutor(W) as ex:
    res = list(ex.map(one, ms))
for i in range(W):
    shutil.rmtree('/tmp/mut%d' % i, ignore_errors=True)
json.dump(res, open(out, 'w'), indent=1)
from collections import Counter
print(Counter(m['r'] for m in res))
for m in res:
    if m['r'] in ('SURVIVED', 'tests', 'timeout', 'crash'):
        print(m['r'], '%s:%d' % (m['File'], m['Line']), m['Op'], repr(m['old'][:70]), '->', repr(m['New'][:70]))
