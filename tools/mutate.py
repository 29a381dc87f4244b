#!/usr/bin/env python3
"""Developer tool: mutate.py base | mutate.py run N SEED [file-substring]
base: judges every pair of the committed tree and records the library functions it read (/tmp/mut/base.json).
run:  makes N random small changes to the library in scratch copies, judges the pairs that read the changed function, and lists
      the changes no pair reports (/tmp/mut/survivors.txt)."""
import sys, os, re, json, random, subprocess, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mut'; SLOTS = int(os.environ.get('SLOTS', '4'))
def inner(names, out, limit):
    sys.path.insert(0, HERE); sys.path.insert(0, HERE + '/engine')
    import check, prog, specs, run, terms as tm, multiprocessing as mp
    idx = specs.index(); sel = [p for n, p in idx.items() if not names or n in names]
    P = prog.Prog(specs=[os.path.join(specs.SPECDIR, f) for f in sorted(set(p.file for p in sel))])
    P.intrinsics = run.INTRINSICS
    for e in P.enums: tm.ENUMT.add(e)
    broken = [s for s, e in P.errors if s.startswith(prog.REPO)]
    if broken and names: json.dump('broken', open(out, 'w')); return
    res = []; k = int(os.environ.get('PAR', '2'))
    for i in range(0, len(sel), 4 * k):
        rs = []
        live = []; todo = sel[i:i + 4 * k]
        while todo or live:
            while todo and len(live) < k:
                a, b = mp.Pipe(False); p = todo.pop(0)
                w = mp.Process(target=check._worker, args=(P, p, limit, b)); w.start(); b.close(); live.append((p, w, a, time.time() + limit + 120))
            for x in list(live):
                p, w, a, dl = x
                if a.poll(0.02):
                    try: r = a.recv()
                    except EOFError: r = {'name': p.name, 'verdict': 'undecided', 'why': 'died', 'funcs': []}
                    rs.append(r); w.join(); live.remove(x)
                elif time.time() > dl: w.kill(); w.join(); live.remove(x); rs.append({'name': p.name, 'verdict': 'undecided', 'why': 'time', 'funcs': []})
        res += [{q: r.get(q) for q in ('name', 'verdict', 'why', 'funcs', 'outlined', 'time')} for r in rs]
        if names and any(r['verdict'] == 'violation' for r in rs): break
    json.dump(res, open(out, 'w'))
OPS = [(r'(?<![<>=!\-])<(?![<=])', '<='), (r'(?<![<>=\-])>(?![>=])', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<![+])\+(?![+=])', '-'), (r'(?<![\-e(,=])-(?![\->=1])', '+'), (r'\*(?=[a-zA-Z(\d])', '/'), (r'\+=', '-='), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b-1\b', '0'),
       (r'getX\(\)', 'getY()'), (r'getY\(\)', 'getX()'), (r'getFirst\(\)', 'getSecond()'), (r'getSecond\(\)', 'getFirst()'), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'\bp1\b', 'p2'), (r'\bp2\b', 'p1'),
       (r'\bt1\b', 't2'), (r'\bt2\b', 't1'), (r'\bindex1\b', 'index2'), (r'\bn1\b', 'n2'), (r'\bi\b(?=\])', 'i-1'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'),
       (r'std::min\b', 'std::max'), (r'std::max\b', 'std::min'), (r'\bbegin\(\)', 'end()'), (r'if ?\((?=.)', 'if(!'), (r'xMin', 'xMax'), (r'yMax', 'yMin'), (r'\bsize\(\)', 'size()-1'), (r'/', '*'), (r'std::abs\(', '('), (r'push_back', 'DEL'), (r'.*', 'DELLINE')]
def funcs(base):
    d = {}
    for r in base:
        for f in r['funcs'] or []:
            m = re.match(r'(.*) \((.*):(\d+)\)$', f)
            if m: d.setdefault((m.group(2), int(m.group(3))), (m.group(1), set()))[1].add(r['name'])
    return d
def extent(lines, l):
    s = '\n'.join(lines[l - 1:]); i = s.find('{'); d = 0; k = i
    while k < len(s):
        if s[k] == '{': d += 1
        if s[k] == '}':
            d -= 1
            if not d: break
        k += 1
    return l + s[:i].count('\n'), l + s[:k].count('\n')
def mutants(base):
    d = funcs(base); out = []
    for (f, l), (n, pairs) in sorted(d.items()):
        p = '/repo/' + f.lstrip('/')
        if not os.path.exists(p): continue
        L = open(p).read().split('\n'); a, b = extent(L, l)
        for i in range(a, b + 1):
            t = L[i - 1]
            if t.strip().startswith(('//', '*', '#', 'template')) or i == l and not t.rstrip().endswith('}'): continue
            body = t
            for rx, new in OPS:
                if new == 'DELLINE':
                    if t.strip().endswith(';') and not re.match(r'\s*(return|[A-Za-z_:<>]+[&*]* +[A-Za-z_]+ *(=|;|\())', t): out.append((f, l, n, i, '', sorted(pairs)))
                    continue
                if new == 'DEL': continue
                for m in re.finditer(rx, t):
                    s = t[:m.start()] + new + t[m.end():]
                    if new == 'if(!': s = t[:m.end()] + '!(' + t[m.end():]; k = s.rfind(')'); s = s[:k] + ')' + s[k:]
                    if s.count('"') and any(x.start() < m.start() < x.end() for x in re.finditer(r'"[^"]*"', t)): continue
                    out.append((f, l, n, i, s, sorted(pairs)))
    return out
def main():
    os.makedirs(M, exist_ok=True)
    if sys.argv[1] == 'inner': return inner(json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4]))
    if sys.argv[1] == 'base':
        json.dump([], open(M + '/n.json', 'w')); os.environ['PAR'] = '8'
        subprocess.call([sys.executable, __file__, 'inner', M + '/n.json', M + '/base.json', '200']); return
    base = json.load(open(M + '/base.json')); cost = {r['name']: r.get('time') or 999 for r in base}
    ms = mutants(base); N = int(sys.argv[2]); random.seed(int(sys.argv[3]))
    if len(sys.argv) > 4: ms = [m for m in ms if sys.argv[4] in m[0]]
    print('mutants', len(ms)); random.shuffle(ms); ms = ms[:N]; live = {}; todo = list(enumerate(ms)); log = open(M + '/log.%s.txt' % sys.argv[3], 'w')
    for s in range(SLOTS):
        W = '%s/w%d' % (M, s); shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
    cnt = {'caught': 0, 'SURVIVED': 0, 'broken': 0, 'undecided': 0}
    while todo or live:
        for s in range(SLOTS):
            W = '%s/w%d' % (M, s)
            if s in live:
                pr, i, m, t = live[s]
                if pr.poll() is None and time.time() - t < 500: continue
                if pr.poll() is None: pr.kill()
                subprocess.call(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'])
                try: r = json.load(open(W + '/out.json'))
                except Exception: r = []
                v = 'broken' if r == 'broken' else 'caught' if any(x['verdict'] == 'violation' for x in r) else 'undecided' if any(x['verdict'] != 'ok' for x in r) or not r else 'SURVIVED'
                cnt[v] += 1; orig = open('/repo/' + m[0].lstrip('/')).read().split('\n')[m[3] - 1]
                log.write('%s %s:%d %s\n    - %s\n    + %s\n' % (v, m[0], m[3], m[2], orig.strip(), m[4].strip()))
                if v == 'undecided': log.write(''.join('    ? %s %s\n' % (x['name'], (x.get('why') or '')[:140]) for x in r if x['verdict'] != 'ok'))
                log.write('    pairs %s\n' % [x['name'] for x in r if x != 'broken' and (x['verdict'] == 'violation' if v == 'caught' else True)][:6] if r != 'broken' else '')
                log.flush(); del live[s]
            if todo and s not in live:
                i, m = todo.pop(0); p = W + '/repo/' + m[0].lstrip('/'); L = open(p).read().split('\n'); L[m[3] - 1] = m[4]; open(p, 'w').write('\n'.join(L))
                json.dump(sorted(m[5], key=lambda n: cost.get(n, 999)), open(W + '/n.json', 'w'))
                if os.path.exists(W + '/out.json'): os.unlink(W + '/out.json')
                live[s] = (subprocess.Popen([sys.executable, __file__, 'inner', W + '/n.json', W + '/out.json', '60'], env=dict(os.environ, VERIF_REPO=W + '/repo'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), i, m, time.time())
        time.sleep(0.1)
    print(cnt)
main()
