"""Evaluates specification harnesses: lhs_X / rhs_X pairs and holds_X laws."""
import sys, os, traceback, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as tm
from terms import *
import interp
from interp import Interp, State, Ctx, strip, Unsupported, VOID, NONE, isptr, isseqty
import prog as progmod

class Outcome(object):
    pass

def i_assume(I, e):
    c = I.rv(e['a'][0])
    I.throw(lnot(c), '$assume')
    return VOID

def i_config(I, e):
    return mk('sym', '$config')

def i_drawn(I, e):
    """drawnWithin(v, lo, hi): v lies in [lo, hi] whatever the random draws it is made of (lo <= hi)"""
    v, lo, hi = [I.rv(x) for x in e['a']]
    def f(v, lo, hi):
        if v.op != 'poly': return FALSE
        ds = sorted({a for m, c in v.args[0] for a, x in m if a.op == 'draw'}, key=lambda t: t.key)
        if not ds or len(ds) > 4: return FALSE
        w = tm._padd(hi, tm.pneg(lo))
        for bits in range(1 << len(ds)):
            m = {}
            for i, d in enumerate(ds):
                if d.args[0].op != 'dist' or len(d.args[0].args) != 3: return FALSE
                m[d] = d.args[0].args[1 + (bits >> i & 1)]
            x = tm._padd(substatoms(v, m), tm.pneg(lo))
            ok = False
            for c in (0, 1):
                if tm.pzero_rational(tm._padd(x, tm.pneg(tm.pscale(w, Fraction(c))))): ok = True
            if not ok: return FALSE
        return TRUE
    return expand(f, (v, lo, hi))

def substatoms(p, m):
    r = ZERO
    for mono, c in p.args[0]:
        t = const(c)
        for a, e in mono: t = mul(t, tm.ppow(m[a], e) if a in m and e != 1 else (m[a] if a in m else mk('poly', ((((a, e),), Fraction(1)),))))
        r = add(r, t)
    return r

INTRINSICS = {'drawnWithin': i_drawn, 'assume': i_assume, 'DelynoiConfig::instance': i_config}

def evaluate(P, fn, opts=None):
    tm.budget((opts or {}).get('budget', 1500000))
    I = Interp(P, opts)
    ctx = Ctx(fn, None)
    I.ctx = ctx
    if (opts or {}).get('fresh') or 'mode:fresh' in ((opts or {}).get('use') or ()): I.firstcall = True
    if (opts or {}).get('history'): earlier(I, fn)
    outs = arguments(I, fn, 'a')
    inits = {b: I.S.store[b] for _, b, _ in outs}
    this = None
    ctx = I.ctx
    I.exec(fn['body'])
    rets = list(ctx.returns)
    if not I.S.dead: rets.append((I.S.guard, I.S.store, VOID))
    comp = {}
    thr = {}
    where = {}
    for g, st, et, site in ctx.throws:
        thr[et] = lor(thr.get(et, FALSE), g)
        where.setdefault('throws ' + et, []).append(site)
    for et, g in thr.items(): comp['throws ' + et] = g
    if rets:
        g, st, v = rets[-1]
        val = v
        for g1, s1, v1 in reversed(rets[:-1]):
            st = I.merge(g1, s1, st)
            val = ite(g1, v1, val) if v1 is not val else val
            g = lor(g1, g)
        I.S = State(st, g)
        if val is not VOID:
            if fn.get('rref'): val = I.read(val, strip(fn['rt']))
            flat(I, 'result', val, strip(fn['rt']), g, comp)
        for n, b, t in outs:
            if st[b] is not inits[b] : flat(I, 'parameter ' + n, st[b], t, g, comp)
            else: comp.setdefault('parameter ' + n, None)
        for b, v in st.items():
            if isinstance(b, tuple) and b[0] in ('D', 'G') :
                if b[0] == 'G' and 'mode:fresh' in ((opts or {}).get('use') or ()): continue
                if b[0] == 'G' and (hidden(P, b[1]) or (v.op == 'opq' and v.args[:2] == ('global', b[1]))): continue
                nm = 'state ' + (show(b[1]) if b[0] == 'D' else str(b[1]))
                t = I.btype.get(b, '?')
                comp['%s' % nm] = ('lazy', v, t, g)
        lg = st.get(('fx', 'log'), NIL)
        comp['output log'] = wrapg(g, lg)
        o_ret = g
    else: o_ret = FALSE
    o = Outcome()
    o.comp = comp; o.ret = o_ret; o.I = I; o.where = where
    o.inits = {n: (inits[b], t) for n, b, t in outs}
    o.bases = {}
    if rets:
        for b in st:
            if isinstance(b, tuple) and b[0] in ('D', 'G'): o.bases['state ' + (show(b[1]) if b[0] == 'D' else str(b[1]))] = b
    # unchanged symbolic state is not a component
    for k in list(comp):
        v = comp[k]
        if v is None: del comp[k]
        elif isinstance(v, tuple):
            _, val, t, g = v
            del comp[k]
            if is_initial(I, k, val, t): continue
            if val.op == 'rec' and not val.args[1]: continue
            flat(I, k, val, t, g, comp)
    return o

def arguments(I, fn, prefix):
    outs = []
    for i, p in enumerate(fn['params']):
        t = strip(p['t'])
        b = I.newbase(t, I.symval(t, mk('sym', '%s%d' % (prefix, i))))
        I.ctx.env[p['d']] = I.loc(b)
        if p.get('ref') and not p.get('const'): outs.append((p['n'], b, t))
    return outs

def hidden(P, g):
    """a variable that only its own function or source file can name"""
    if g.endswith('#init'): return True
    G = P.globals.get(g)
    return G is not None and bool(G.get('dyn') or G.get('staticlocal') or '@' in g)

def earlier(I, fn):
    """an earlier call with arguments b0, b1, ...: what remains of it is the state kept in static variables"""
    ctx = I.ctx
    S0 = dict(I.S.store)
    I.firstcall = True
    # the settings may have been others then
    c = ('D', mk('sym', '$config'))
    if 'DelynoiConfig' in I.prog.records:
        I.btype.setdefault(c, 'DelynoiConfig')
        I.S.store[c] = I.symval('DelynoiConfig', mk('sym', '$config1'))
    arguments(I, fn, 'b')
    I.exec(fn['body'])
    rets = list(ctx.returns)
    if not I.S.dead: rets.append((I.S.guard, I.S.store, VOID))
    keep = {}
    for g, st, v in rets:
        for b, x in st.items():
            if isinstance(b, tuple) and b[0] == 'G' and hidden(I.prog, b[1]): keep.setdefault(b, I.globalinit(b[1]))
    for g, st, v in rets:
        for b in keep:
            if b in st: keep[b] = ite(g, st[b], keep[b])
    S0.update(keep)
    I.S = State(S0, TRUE)
    I.ctx = Ctx(fn, None)

def statics(P, x):
    """does a normal form depend on what static variables held before the call"""
    seen = set(); todo = [x]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple): todo.extend(t); continue
        if not isinstance(t, T) or id(t) in seen: continue
        seen.add(id(t))
        if t.op == 'gsym' and hidden(P, t.args[0]): return True
        todo.extend(t.args)
    return False

def kept(I, path, old, new, ty, out):
    """which parts of a value a function leaves as they were"""
    if old is new: out.add(path); return
    fs = I.fields(ty)
    if not fs: return
    for f, t in fs:
        try: kept(I, path + '.' + f, fld(f, t, old), fld(f, t, new), strip(t), out)
        except Exception: pass

def olterms(P, fn, opts=None):
    """normal forms of what a library function does to its object (#this), to its reference parameters (#i), what it
    returns ('') and when it throws (#throws T), over its arguments a0, a1, ...; None when they cannot be had"""
    d = P.__dict__.setdefault('_olterms', {})
    if fn['m'] in d: return d[fn['m']]
    d[fn['m']] = None
    left = tm._BUD[:]
    tm.budget(200000)
    try:
        use = set((opts or {}).get('use') or ()) - {'outline:' + fn['n']}
        I = Interp(P, dict(opts or {}, use=use))
        ctx = Ctx(fn, None)
        I.ctx = ctx
        ct = strip(fn['cls']) if fn.get('cls') else None
        n = 0; this = None
        if ct and not fn.get('static'):
            if fn.get('ctor'): this = I.loc(I.newbase(ct, I.default(ct)))
            else:
                this = I.loc(I.newbase(ct, I.symval(ct, mk('sym', 'a0')))); n = 1
        vals = []; refs = []
        for i, q in enumerate(fn['params']):
            t = strip(q['t'])
            l = I.loc(I.newbase(t, I.symval(t, mk('sym', 'a%d' % n)))); n += 1
            vals.append(l if q.get('ref') else I.read(l, t))
            if q.get('ref') and not q.get('const'): refs.append((i, l, t, I.read(l, t)))
        v0 = I.read(this, ct) if this is not None else None
        v = I.callfn(fn, this, [], ctor=bool(fn.get('ctor')), vals=vals)
        r = {}
        for g, st, et, site in ctx.throws: r['#throws ' + et] = lor(r.get('#throws ' + et, FALSE), g)
        if not I.S.dead:
            if v is not VOID: r[''] = I.read(v, strip(fn['rt'])) if fn.get('rref') else v
            if this is not None:
                r['#this'] = I.read(this, ct)
                r['keeps'] = set()
                kept(I, '#this', v0, r['#this'], ct, r['keeps'])
            for i, l, t, old in refs:
                r['#%d' % i] = I.read(l, t)
                kept(I, '#%d' % i, old, r['#%d' % i], t, r.setdefault('keeps', set()))
        d[fn['m']] = r
    except (RecursionError, MemoryError, Exception): d[fn['m']] = None
    finally: tm._BUD[:] = left
    return d[fn['m']]

def is_initial(I, k, v, t):
    if v.op == 'deref' or v.op == 'gsym': return True
    b = interp_bare(v)
    return b is not None and b.op in ('deref', 'gsym')

def missing(o, other, k):
    """the value of component k for an outcome that leaves it as it was (None: unknown)"""
    if k.startswith('throws '): return FALSE
    for n, (v, t) in o.inits.items():
        for full in ('parameter ' + n,):
            if k == full or k.startswith(full + '.'): return _steps(o, full, k, v, t)
    for full, b in other.bases.items():
        if k == full or k.startswith(full + '.'):
            t = other.I.btype.get(b, '?')
            return _steps(o, full, k, mk('deref' if b[0] == 'D' else 'gsym', b[1]), t)
    return None

def _steps(o, full, k, v, t):
    pre = full
    # a component that covers k
    best = None
    for c in o.comp:
        if k.startswith(c + '.') and (best is None or len(c) > len(best)): best = c
    v = o.comp[best] if best else v
    done = best or full
    cur = full; ty = t
    for f in k[len(full):].split('.')[1:]:
        m = [(g, x) for g, x in (o.I.fields(ty) or []) if g.split('::')[-1] == f]
        if not m: return None
        cur += '.' + f; ty = strip(m[0][1])
        if len(cur) > len(done):
            g = m[0][0]
            v = expand(lambda z: z if z is NONE else fld(g, ty, z), (v,)) if best else fld(g, ty, v)
    return v if best else wrapg(o.ret, v)

def interp_bare(v):
    return tm._bare(v)

def wrapg(g, v):
    return ite(g, v, NONE)

def flat(I, name, v, t, g, comp, d=0):
    fs = I.fields(t) if not isseqty(t) else None
    if fs and d < 4 and (v.op in ('rec', 'ite') ):
        for f, ty in fs:
            flat(I, name + '.' + f.split('::')[-1], fld(f, strip(ty), v), strip(ty), g, comp, d + 1)
        return
    comp[name] = wrapg(g, v)

def poly_equal(a, b):
    """equality of two components up to rational-function identity of the numeric leaves"""
    if a is b: return True
    if _peq(a, b): return True
    try: x, y = tm.specialise(a), tm.specialise(b)
    except TooBig: return False
    if x is a and y is b: return False
    return x is y or _peq(x, y)

def _peq(a, b):
    def f(x, y):
        if x is y: return TRUE
        if x.op == 'poly' and y.op == 'poly':
            try: return B(tm.pzero_rational(tm._padd(x, tm.pneg(y))))
            except TooBig: return FALSE
        return FALSE
    try: return expand(f, (a, b)) is TRUE
    except TooBig: return False

def law(o):
    """a holds_X law: under its assumptions every return is true"""
    r = o.comp.get('result')
    if r is None or not isinstance(r, T): return False
    def ok(x):
        if x.op == 'ite': return all(ok(k) for k in x.args[2])
        return x is TRUE or x is NONE
    return ok(r)
