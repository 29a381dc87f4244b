#!/usr/bin/env python3
"""Developer tool: seeds.py [ids...] runs, for every planted bug, its property's check on a scratch copy with the bug; says how it was told apart"""
import os, sys, json, subprocess, re, shutil
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(H + '/seeded'))
N = int(os.environ.get('SLOTS', '3')); W = '/tmp/seeds'
shutil.rmtree(W, ignore_errors=True)
def one(k):
    for s in ids[k::N]:
        r = '%s/%d' % (W, k)
        if not os.path.exists(r): subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        subprocess.call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        if subprocess.call(['git', '-C', r, 'apply', '%s/seeded/%s/patch.diff' % (H, s)]): print(s, 'DOES NOT APPLY'); continue
        pid = json.load(open('%s/seeded/%s/meta.json' % (H, s)))['property']; ev = '%s/ev%d' % (W, k)
        o = subprocess.run([sys.executable, H + '/check.py', pid], env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=ev), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
        how = ''
        if 'VIOLATION' in o:
            t = open('%s/%s.replay.txt' % (ev, pid)).read()
            how = 'interpretation' if '"told_apart_by": {' in t else 'form only'
        e = json.load(open('%s/%s.json' % (ev, pid)))
        print(pid, s, 'CAUGHT' if 'VIOLATION' in o else 'MISSED', how, e['wall_s'], '' if 'VIOLATION' in o else str(e['coverage']['undecided'])[:300], flush=True)
with ThreadPoolExecutor(N) as ex: list(ex.map(one, range(N)))
shutil.rmtree(W, ignore_errors=True)
