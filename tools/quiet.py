#!/usr/bin/env python3
"""Developer tool: quiet.py REFAC.py [name...] [-- C01 C02...] applies behaviour-preserving rewrites to a scratch copy of /repo,
builds it, runs the stable tests and then every check on it: all have to stay quiet.  Undecided pairs are listed."""
import sys, os, re, json, subprocess, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
from seedlib import sh, HERE
seedlib.W = W = '/tmp/quietwork%d' % os.getpid()
def fn(s, sig, new):
    """replace the definition that starts with the text sig"""
    assert s.count(sig) == 1, (s.count(sig), sig)
    a = s.index(sig); i = s.index('{', a + len(sig.rstrip('{'))) if not sig.endswith('{') else a + len(sig) - 1; d = 0
    while True:
        if s[i] == '{': d += 1
        if s[i] == '}':
            d -= 1
            if not d: break
        i += 1
    return s[:a] + new.strip('\n') + s[i + 1:]
def main():
    args = sys.argv[2:]; checks = []
    if '--' in args: k = args.index('--'); checks = args[k + 1:]; args = args[:k]
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    seedlib.fresh(); files = {}
    for name, f, sig, new in ns['EDITS']:
        if args and name not in args: continue
        p = '%s/repo/%s' % (W, f); s = open(p).read()
        try: s = fn(s, sig[4:], new) if sig.startswith('fn: ') else s.replace(sig, new, 1) if s.count(sig) == 1 else 1 / 0
        except Exception as e: print('EDIT', name, repr(e)); continue
        open(p, 'w').write(s)
    r = seedlib.build()
    if r.returncode: print(r.stdout[-3000:]); return
    print('tests failing:', seedlib.stable())
    # what the header templates mean is compiled too
    V = W + '/verif'
    sh('mkdir -p %s && cp -a check.py engine spec rules extractor known_findings.txt MANIFEST.json %s/' % (V, V), cwd=HERE)
    if os.environ.get('KEEP'): print('tree', W + '/repo'); return
    ids = checks or [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    for c in ids:
        t0 = time.time()
        r = sh('python3 check.py ' + c, cwd=V, env=dict(os.environ, VERIF_REPO=W + '/repo', VERIF_EVIDENCE='/tmp/quiet_evidence'))
        ev = json.load(open('/tmp/quiet_evidence/%s.json' % c))
        un = [u for u in ev['coverage'].get('undecided', [])] if 'coverage' in ev else []
        print(c, 'quiet' if r.returncode == 0 and 'VIOLATION' not in r.stdout else 'ALARM %d' % r.returncode, '%.0fs' % (time.time() - t0), 'undecided %d' % len(un), flush=True)
        if r.returncode: print('    ' + '\n    '.join(l[:300] for l in r.stdout.split('\n') if l) + r.stderr[-500:])
        for u in un: print('      ?', u['what'][:120], '|', u['why'][:160])
    shutil.rmtree(W, ignore_errors=True)
main()
