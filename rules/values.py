"""No unset value is read, nothing handed out dangles."""
import os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
import prog, terms as tm, interp as IN
HERE = os.path.dirname(os.path.abspath(__file__))
WARN = ['return-stack-address', 'dangling', 'dangling-gsl', 'dangling-field', 'dangling-initializer-list', 'uninitialized', 'sometimes-uninitialized', 'self-assign-field',
        'return-type', 'infinite-recursion', 'delete-incomplete', 'mismatched-new-delete', 'free-nonheap-object', 'delete-non-abstract-non-virtual-dtor', 'delete-abstract-non-virtual-dtor', 'uninitialized-const-reference', 'null-dereference', 'array-bounds', 'division-by-zero', 'static-self-init']
VENDORED = ('/voronoi/lib/', '/clipper/lib/')
VAL = re.compile(r'^(.*?):(\d+):(\d+): warning: (.*) \[-W([a-z-]+)[\],]')

def flow(P, rep):
    """the compiler's flow analysis, over every translation unit and every template of the library: no local or parameter is read before it is set,
    no reference or pointer to a local or a temporary is returned or stored, no function with a result ends without one, none calls itself for ever"""
    units = [f for f in prog.units() if not any(v in f for v in VENDORED)] + [os.path.join(HERE, 'instances.cpp')]
    def one(f):
        r = subprocess.run(['clang++-18', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-Wno-everything'] + ['-W' + w for w in WARN] + prog.FLAGS + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return f, r.returncode, r.stderr.decode(errors='replace').split('\n')
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, units))
    seen = set()
    for f, c, ls in rs:
        n = os.path.relpath(f, prog.REPO) if f.startswith(prog.REPO) else os.path.basename(f)
        if c: rep.dunno(n, 'does not compile: ' + next((l for l in ls if 'error:' in l), '')[:160]); continue
        own = 0
        for l in ls:
            m = VAL.match(l)
            if not m: continue
            p = os.path.realpath(m.group(1))
            if not p.startswith(prog.REPO + '/') or any(v in p for v in VENDORED): continue
            p = p.replace(prog.REPO + '/', ''); own += 1
            if (p, m.group(2), m.group(4)) in seen: continue
            seen.add((p, m.group(2), m.group(4)))
            rep.bad('flow:%s:%s:%s' % (p, m.group(5), m.group(4)[:100]), '%s (%s)' % (m.group(4), m.group(5)), '%s:%s' % (p, m.group(2)), l)
        if not own: rep.ok(n)

def undefs(t, out, seen):
    if isinstance(t, tuple):
        for x in t: undefs(x, out, seen)
    elif isinstance(t, tm.T) and id(t) not in seen:
        seen.add(id(t))
        if t.op in ('undef', 'uninit'): out.append(t)
        for a in t.args: undefs(a, out, seen)

def plain(P, I, c):
    """a class whose own members are all objects: their constructors set them"""
    fs = I.fields(c)
    return fs is not None and not any(IN.isptr(t) or IN.isnum(t) or t.endswith(']') or IN.strip(t) in ('bool', 'char', 'double', 'float', 'int') or IN.strip(t) in tm.ENUMT for f, t in fs)

def ctors(P, rep):
    """every constructor gives every number and pointer of the object a value, on every path"""
    import run
    Q = prog.Prog(specs=[os.path.join(HERE, 'instances.cpp')]); Q.intrinsics = run.INTRINSICS
    for e in Q.enums: tm.ENUMT.add(e)
    I = run.Interp(Q, {}); caches = {True: {}, False: {}}; t0 = time.time()
    use = {'outline:Polygon::isSelfIntersecting'}
    for m, f in sorted(Q.funcs.items()):
        if not f.get('ctor') or f.get('body') is None and not f.get('inits') or not f['file'].startswith(prog.REPO) or any(v in f['file'] for v in VENDORED): continue
        site = '%s:%s' % (os.path.relpath(f['file'], prog.REPO), f.get('l'))
        k = (f['n'], tuple(p['t'] for p in f.get('params') or []))
        name = '%s(%s)' % (f['n'], ', '.join(k[1]))
        if time.time() - t0 > 400: rep.dunno(name, 'time'); continue
        if plain(Q, I, IN.strip(f['cls'])): rep.ok('%s (%s): objects only' % (name, site)); continue
        def state(u):
            Q.__dict__['_olterms'] = caches[bool(u)]
            try: r = run.olterms(Q, f, {'use': u})
            except Exception as e: return None
            return r if r and '#this' in r else None
        r = state(use)
        if r is not None:
            o = []; undefs(r['#this'], o, set())
            if o: r = state(())
        if r is None: rep.dunno(name, 'no normal form'); continue
        o = []; undefs(r['#this'], o, set())
        if not o: rep.ok('%s (%s)' % (name, site)); continue
        what = sorted({tm.show(x)[:80] for x in o})
        rep.bad('unset:' + name, 'after %s a member of the object still has no value: %s' % (name, ', '.join(what)[:200]), site)

def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            for y in nodes(v): yield y
    elif isinstance(x, list):
        for v in x:
            for y in nodes(v): yield y

def has(t, p, seen):
    if isinstance(t, tuple): return any(has(x, p, seen) for x in t)
    if not isinstance(t, tm.T) or id(t) in seen: return False
    seen.add(id(t))
    return p(t) or any(has(a, p, seen) for a in t.args)

USE = set('''outline:UniqueList<int>::push_back outline:UniqueList<Point>::push_back outline:UniqueList<Point>::push_list outline:EdgeData::setTriangle outline:PointData::setEdge outline:Triangle::Triangle outline:Region::getSegments outline:Region::getRegionPoints outline:UniqueList<Point>::indexOf outline:Hole::getCenter outline:PointMap::insert outline:Triangle::getPoints outline:Polygon::Polygon'''.split())
def memory(P, rep):
    """where the library talks to Triangle: the lists given and taken are released exactly once on every path and not read afterwards"""
    import run
    from run import Interp, Ctx, strip, mk, VOID
    for m, f in sorted(P.funcs.items()):
        if f.get('body') is None or any(v in f['file'] for v in VENDORED): continue
        if not any(str(v.get('t')).split()[-1:] == ['triangulateio'] for x in nodes(f['body']) if x.get('k') == 'decl' for v in x.get('v') or []): continue
        site = '%s:%s' % (os.path.relpath(f['file'], prog.REPO), f.get('l'))
        left = tm._BUD[:]; tm.budget(2000000)
        try:
            I = Interp(P, {'freed': True, 'use': USE}); ctx = Ctx(f, None); I.ctx = ctx
            ct = strip(f['cls']) if f.get('cls') else None; n = 0; this = None
            if ct and not f.get('static'):
                this = I.loc(I.newbase(ct, I.symval(ct, mk('sym', 'a0')))); n = 1
            vals = []
            for i, q in enumerate(f['params']):
                t = strip(q['t']); l = I.loc(I.newbase(t, I.symval(t, mk('sym', 'a%d' % n)))); n += 1
                vals.append(l if q.get('ref') else I.read(l, t))
            v = I.callfn(f, this, [], ctor=bool(f.get('ctor')), vals=vals)
            # handed on to the caller: through the result, the object or what the arguments refer to
            out = [v] if isinstance(v, tm.T) else []
            if this is not None: out.append(I.read(this, ct))
            for q, l in zip(f['params'], vals):
                if isinstance(l, tm.T) and l.op == 'ptr' and (q.get('ref') or '*' in q['t']): out.append(I.S.store.get(l.args[0], tm.NIL))
            kept = lambda b: any(has(x, lambda t: t.op == 'ptr' and t.args[0] == b, set()) for x in out if isinstance(x, tm.T))
            log = I.S.store.get(('fx', 'free'), tm.NIL)
            got = I.blocks
            parts = log.args[0] if log.op == 'cat' else (log,)
            freed = []
            for p in parts:
                if p.op != 'lit': raise IN.Unsupported('log')
                freed += [x for x in p.args[0]]
            ptrs = [x for x in freed if x.op != 'null']
            if any(x.op != 'ptr' for x in ptrs): raise IN.Unsupported('released under a condition')
            name = f['n']
            base = lambda x: x.args[0]
            for b, what in got:
                k = sum(1 for x in ptrs if base(x) == b)
                what = '%s: %s' % (name, what)
                if k == 1: rep.ok('%s (%s)' % (what, site))
                elif k == 0 and kept(b): rep.ok('%s: handed on' % what)
                elif k == 0: rep.bad('leak:' + what, '%s is never released' % what, site)
                else: rep.bad('double:' + what, '%s is released %d times' % (what, k), site)
            o = []
            for b, v in I.S.store.items():
                if not (isinstance(b, tuple) and b[0] == 'fx') and isinstance(v, tm.T) and b not in [x for x, w in got] and has(v, lambda t: t.op == 'undef' and t.args[0] == 'freed', set()): o.append(b)
            if o: rep.bad('afterfree:' + name, '%s uses a list after it has been released' % name, site)
            else: rep.ok('%s: nothing read after release' % name)
        except Exception as e: rep.dunno('memory:' + f['n'], '%s %s' % (type(e).__name__, str(e)[:150]))
        finally: tm._BUD[:] = left
