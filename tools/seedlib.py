#!/usr/bin/env python3
"""Planted bugs: `seedlib.py make DEF.py` writes /verif/seeded/<id>/ from definitions, `seedlib.py test [ids]` validates
them in a scratch copy of /repo (applies, builds, stable tests pass, demo 0 before and non-zero after) and runs the
property's check on the patched copy.  Development tool only; no check reads /verif/seeded."""
import sys, os, json, subprocess, shutil, re, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build; writes only below a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; export HOME=$T; ulimit -c 0
L() { find "$R/_build" -name "$1" | head -1; }
g++ -std=gnu++11 -w -O1 -g -pg -I"$R/delynoi/include" -I"$R/lib/utilities/include" "$D/demo.cpp" "$(L liblibdelynoi.a)" "$(L libtriangle.a)" "$(L liblibutilities.a)" -o "$T/demo" || exit 99
cd "$T" && timeout 60 ./demo
'''
HEAD = '#include <cstdio>\n#include <cmath>\n#include <cstdlib>\n#define CHECK(c) do{ if(!(c)){ std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } }while(0)\n'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(deffile):
    ns = {}; exec(open(deffile).read(), ns)
    for b in ns['BUGS']:
        t = tempfile.mkdtemp(); files = {}
        for f, old, new in b['edits']:
            s = files.get(f) or open('/repo/' + f).read()
            if s.count(old) != 1: print(b['id'], 'edit text occurs', s.count(old), 'times in', f, ':', old); break
            files[f] = s.replace(old, new)
        else:
            d = os.path.join(SD, b['id']); os.makedirs(d, exist_ok=True); diff = ''
            for f, s in files.items():
                for side, txt in (('a', open('/repo/' + f).read()), ('b', s)):
                    p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(txt)
                r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
                r = re.sub(r'^(--- a/\S+|\+\+\+ b/\S+)\t.*$', r'\1', r, flags=re.M)
                diff += 'diff --git a/%s b/%s\n' % (f, f) + r
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + b['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(t)
W = '/tmp/seedwork'
def build():
    return sh('cmake -S %s/harness -B %s/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -Wno-dev && ninja -C %s/repo/_build all' % (W, W, W), env=dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8'))
def fresh():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh('mkdir %s/harness; sed s,/repo,%s/repo,g /opt/vp/harness/CMakeLists.txt > %s/harness/CMakeLists.txt; git clone -q /repo %s/repo' % (W, W, W, W))
def stable():
    names = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = sh('ninja -C %s/repo/_build %s' % (W, ' '.join('t_' + n for n in names)))
    if r.returncode: return ['build: ' + r.stdout[-500:]]
    bad = []
    for n in names:
        h = W + '/home'; shutil.rmtree(h, ignore_errors=True); os.makedirs(h); sh('cp %s/repo/test/test_examples/* %s/' % (W, h))
        r = subprocess.run('ulimit -c 0; timeout 60 %s/repo/_build/tests/t_%s' % (W, n), shell=True, cwd=h, env=dict(os.environ, HOME=h), capture_output=True)
        if r.returncode: bad.append(n)
    return bad
def test(ids, checkonly=False):
    fresh(); r = build()
    if r.returncode: print(r.stdout[-2000:]); return
    stable()
    res = {}
    for i in ids or sorted(os.listdir(SD)):
        d = os.path.join(SD, i)
        if not os.path.exists(d + '/patch.diff'): continue
        meta = json.load(open(d + '/meta.json')); out = []
        if not checkonly:
            sh('git -C %s/repo checkout -q -- .' % W); build()
            r = sh('cd %s/repo && bash %s/demo.sh' % (W, d)); 
            if r.returncode: out.append('DEMO FAILS ON CLEAN TREE: ' + (r.stdout + r.stderr)[-300:])
        r = sh('git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff' % (W, W, d))
        if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); continue
        if not checkonly:
            r = build()
            if r.returncode: out.append('DOES NOT BUILD ' + r.stdout[-800:])
            bad = stable()
            if bad: out.append('TESTS FAIL %s' % bad)
            r = sh('cd %s/repo && bash %s/demo.sh' % (W, d))
            if r.returncode == 0: out.append('DEMO PASSES WITH THE BUG')
            elif r.returncode == 99: out.append('DEMO DOES NOT COMPILE WITH THE BUG ' + r.stderr[-500:])
        t0 = time.time()
        r = sh('python3 check.py ' + meta['property'], cwd=HERE, env=dict(os.environ, VERIF_REPO=W + '/repo', VERIF_EVIDENCE='/tmp/seed_evidence'))
        caught = r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout
        lines = [l for l in r.stdout.split('\n') if 'violated' in l or 'undecided ' in l]
        print('%-26s %s %-7s %5.1fs %s %s' % (i, meta['property'], 'CAUGHT' if caught else 'missed', time.time() - t0, '; '.join(out) or 'valid', '' if caught else ' | '.join(lines)[:600] + r.stderr[-300:]), flush=True)
    shutil.rmtree(W, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1] == 'make': [make(f) for f in sys.argv[2:]]
    elif sys.argv[1] == 'check': test(sys.argv[2:], True)
    else: test(sys.argv[2:])
