"""What a program that includes the library can rely on before anything runs."""
import os, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
import prog
ROOTS = ('delynoi/include', 'lib/utilities/include')
VENDORED = ('/voronoi/lib/', '/clipper/lib/')

def headers():
    out = []
    for d in ROOTS:
        for root, ds, fs in os.walk(os.path.join(prog.REPO, d)):
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith(('.h', '.hpp')) and not any(v in p for v in VENDORED): out.append((os.path.relpath(p, os.path.join(prog.REPO, d)), p))
    return sorted(out)

def check(text, tmp, n):
    src = os.path.join(tmp, 'h%d.cpp' % n)
    with open(src, 'w') as f: f.write(text)
    r = subprocess.run(['clang++-18', '-fsyntax-only', '-w'] + prog.FLAGS + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, [l for l in r.stderr.decode(errors='replace').split('\n') if ': error:' in l or 'fatal error:' in l]

def selfcontained(P, rep):
    """every public header compiles as the only include of a program, once, twice, and together with all the others in either order"""
    hs = headers(); tmp = tempfile.mkdtemp(prefix='dlh')
    try:
        jobs = [(h, p, '#include <%s>\n#include <%s>\n' % (h, h)) for h, p in hs]
        jobs += [('all headers', None, ''.join('#include <%s>\n' % h for h, p in hs)), ('all headers in reverse', None, ''.join('#include <%s>\n' % h for h, p in reversed(hs)))]
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda j: check(j[1][2], tmp, j[0]), enumerate(jobs)))
        alone = [n for n, (c, e) in enumerate(rs[:-2]) if c]
        for (h, p, _), (c, e) in zip(jobs, rs):
            if not c: rep.ok(h); continue
            if p is None and alone: rep.dunno(h, 'a header does not compile by itself'); continue
            if not e: rep.dunno(h, 'the compiler gave no reason'); continue
            rep.bad('header:' + h, 'including only %s does not compile: %s' % (h, e[0].split('error:')[-1].strip()), e[0].split(': ')[0].replace(prog.REPO + '/', ''), '\n'.join(e[:5]))
    finally: shutil.rmtree(tmp, ignore_errors=True)

def defined(P, rep):
    """every function the headers declare (not pure virtual, not deleted) has a definition in the library"""
    decls = dict(P.decls); tmp = tempfile.mkdtemp(prefix='dlh')
    try:
        with open(tmp + '/all.cpp', 'w') as f: f.write(''.join('#include <%s>\n' % h for h, p in headers()))
        for x in prog.extract(tmp + '/all.cpp', tmp + '/o.json')['decls']:
            if not decls.get(x['m'], {}).get('def'): decls[x['m']] = x
    except prog.AnalysisBroken as e: rep.dunno('all headers', str(e)[:200])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for m, x in sorted(decls.items()):
        f = x.get('file', '')
        if not f.startswith(prog.REPO) or any(v in f for v in VENDORED) or x.get('inst') or x.get('pure') or x.get('deleted') or not f.endswith(('.h', '.hpp')) and not x.get('def'): continue
        site = '%s:%s' % (os.path.relpath(f, prog.REPO), x.get('l'))
        if x.get('def'): rep.ok('%s (%s)' % (x['n'], site))
        elif x['n'].split('::')[-1].startswith('~') or private(P, x): rep.dunno(x['n'], 'declared and not defined')
        else: rep.bad('undefined:%s(%s)' % (x['n'], ', '.join(x.get('pt') or [])), '%s is declared and never defined' % x['n'], site)

def private(P, x):
    """copying is forbidden by declaring it without a definition"""
    c = x['n'].rsplit('::', 1)
    return len(c) == 2 and (c[1] == 'operator=' or c[1] == c[0].split('::')[-1]) and len(x.get('pt') or []) == 1 and c[0].split('::')[-1] in x['pt'][0]

def templates(P, rep):
    """every template of the library compiles in full, all members included, for the types the library uses it with, and has a definition for every member"""
    src = os.path.join(os.path.dirname(__file__), 'instances.cpp')
    r = subprocess.run(['clang++-18', '-fsyntax-only', '-w'] + prog.FLAGS + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        e = [l for l in r.stderr.decode(errors='replace').split('\n') if ': error:' in l or 'fatal error:' in l]
        own = [l for l in e if l.startswith(prog.REPO + '/')]
        if own and len(own) == len(e): rep.bad('template:' + re.sub(r':\d+:\d+', '', own[0].replace(prog.REPO + '/', ''))[:120], 'a template of the library does not compile: ' + own[0].split('error:')[-1].strip(), own[0].split(': ')[0].replace(prog.REPO + '/', ''), '\n'.join(e[:5]))
        else: rep.dunno('templates', (e or ['the compiler gave no reason'])[0][:200])
        return
    tmp = tempfile.mkdtemp(prefix='dlh')
    try: d = prog.extract(src, os.path.join(tmp, 'o.json'))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    best = {}
    for x in d['decls']:
        if x['m'] not in best or x.get('def'): best[x['m']] = x
    for m, x in sorted(best.items()):
        f = x.get('file', '')
        if not x.get('inst') or x.get('pure') or x.get('deleted') or not f.startswith(prog.REPO) or any(v in f for v in VENDORED): continue
        if not x['n'].startswith(('Pair<int>', 'Pair<double>', 'UniqueList<int>', 'UniqueList<Point>', 'Mesh<')): continue
        site = '%s:%s' % (os.path.relpath(f, prog.REPO), x.get('l'))
        if x.get('def') or x['n'] in P.byname: rep.ok('%s (%s)' % (x['n'], site))
        else: rep.bad('undefined:%s(%s)' % (x['n'], ', '.join(x.get('pt') or [])), '%s is declared and never defined' % x['n'], site)
