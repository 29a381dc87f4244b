"""Loop summaries."""
import hashlib
from terms import *
import terms as tm

def _ity(t):
    from interp import isint
    return isint(t)

import os
DEBUG = int(os.environ.get('LOOPDBG', '0'))
DUMP = []

class _It(object):
    pass

def run_loop(I, s, cond, body, inc):
    from interp import State, TooBig
    if I.S.dead: return
    if unroll(I, cond, body, inc): return
    I.loops += 1
    I.looplevel += 1
    try: symbolic(I, s, cond, body, inc)
    finally: I.looplevel -= 1

def unroll(I, cond, body, inc):
    from interp import State
    ctx = I.ctx
    saved = I.S.copy()
    nr, nt = len(ctx.returns), len(ctx.throws)
    sb, sc = ctx.breaks, ctx.continues
    g0 = I.S.guard
    ok = False
    brk = []
    try:
        I.S = State(I.S.store, I.S.guard)
        for n in range(I.MAXUNROLL + 1):
            c = cond()
            if c is FALSE:
                ok = True; break
            if c is not TRUE or n == I.MAXUNROLL: break
            ctx.breaks, ctx.continues = [], []
            body()
            outs = ctx.continues
            brk += ctx.breaks
            if not I.S.dead: outs = outs + [(I.S.guard, I.S.store)]
            I.join(outs)
            if I.S.dead:
                ok = True; break
            inc()
    finally:
        ctx.breaks, ctx.continues = sb, sc
    if ok:
        outs = brk
        if not I.S.dead: outs = outs + [(I.S.guard, I.S.store)]
        I.join(outs)
        return True
    del ctx.returns[nr:]; del ctx.throws[nt:]
    I.S = saved
    return False

class Slot(object):
    __slots__ = ('base', 'path', 'ty', 'fs', 'init', 'kind', 'at', 'fin', 'step', 'nxt')
    def key(self): return (self.base, self.path)

def wrap(kind, a):
    if kind == 'n': return num(a)
    if kind == 'b': return batom(a)
    return a

def kind_of(v, ty):
    from interp import isnum
    if ty == 'bool': return 'b'
    if isnum(ty): return 'n'
    if v is not None:
        if v.op == 'poly': return 'n'
        if v.op in ('true', 'false'): return 'b'
        if v.op == 'ite':
            x = v
            while x.op == 'ite': x = x.args[2][0]
            if x.op == 'poly': return 'n'
            if x.op in ('true', 'false'): return 'b'
    return 'r'

def diff(I, old, new, ty, path, out, depth=0):
    """leaf paths at which two values of a base differ"""
    if old is new: return
    cls = None
    for v in (old, new):
        x = v
        while x.op == 'ite': x = x.args[2][0]
        if x.op == 'rec': cls = x.args[0]; break
    if cls is None and (I.fields(ty) is not None): cls = ty
    if cls is not None and depth < 6 and I.fields(cls):
        for f, t in I.fields(cls):
            diff(I, fld(f, t, old), fld(f, t, new), t, path + (('f', f, t),), out, depth + 1)
        return
    out[path] = ty

def iteration(I, store, cond, body, inc, rot=None):
    from interp import State
    ctx = I.ctx
    sr, st, sb, sc = ctx.returns, ctx.throws, ctx.breaks, ctx.continues
    S0 = I.S
    r = _It()
    try:
        ctx.returns, ctx.throws, ctx.breaks, ctx.continues = [], [], [], []
        I.S = State(dict(store), TRUE)
        c = cond()
        r.cond = c
        r.exit = dict(I.S.store)
        if rot is None: I.S.guard = land(I.S.guard, c)
        if not I.S.dead:
            body()
            outs = ctx.continues
            if not I.S.dead: outs = outs + [(I.S.guard, I.S.store)]
            I.join(outs)
            if not I.S.dead: inc()
        r.nguard = I.S.guard
        r.next = I.S.store
        r.breaks = ctx.breaks; r.returns = ctx.returns; r.throws = ctx.throws
    finally:
        ctx.returns, ctx.throws, ctx.breaks, ctx.continues = sr, st, sb, sc
        I.S = S0
    return r

def cofactor(c, v, region_cuts, i):
    """restrict diagram c to region i of test v"""
    memo = {}
    def rec(x):
        if x.op != 'ite': return x
        y = memo.get(x)
        if y is not None: return y
        if x.args[0] is v:
            y = rec(tm._region(x, region_cuts, i)) if v.op == 'tr' else x.args[2][i]
        else:
            y = tm._node(x.args[0], x.args[1], tuple(rec(k) for k in x.args[2]))
        memo[x] = y
        return y
    return rec(c)

def tests_of(c, out=None):
    if out is None: out = []
    if c.op == 'ite':
        if c.args[0] not in out: out.append(c.args[0])
        for k in c.args[2]: tests_of(k, out)
    return out

def all_cuts(c, v, acc=None):
    if acc is None: acc = set()
    if c.op == 'ite':
        if c.args[0] is v: acc.update(c.args[1])
        for k in c.args[2]: all_cuts(k, v, acc)
    return acc

def tripcount(c, k, slotfs):
    """c: continue condition with counters replaced by affine forms of the unranged k.
    returns (N, rest condition) or (None, c)"""
    if c is TRUE or c is FALSE: return None, c
    r = _tripcount(c, k, slotfs)
    if r[0] is not None and r[1] is TRUE: return r
    # tests that no iteration changes: one count for each of their outcomes
    for v in tests_of(c):
        if k in v.fs or v.fs & slotfs or any(x.lvl >= k.lvl for x in v.fs): continue
        cuts = tuple(sorted(all_cuts(c, v))) if v.op == 'tr' else ()
        ns = []
        for i in range(len(cuts) + 1 if v.op == 'tr' else 2):
            x = cofactor(c, v, cuts, i)
            if x is FALSE: n = ZERO
            else:
                n, rest = tripcount(x, k, slotfs)
                if n is None or rest is not TRUE: return r
            ns.append(n)
        N = tm._node(v, cuts, tuple(ns)) if any(n is not ns[0] for n in ns) else ns[0]
        return N, TRUE
    return r

def _tripcount(c, k, slotfs):
    for v in tests_of(c):
        if v.op != 'tr' or k not in v.fs: continue
        if v.args[0].fs & slotfs: continue
        lin = tm._linear_in(v.args[0], k)
        if lin is None: continue
        a, r = lin
        if a == 0 or not v.args[1] and a.denominator != 1: continue
        cuts = sorted(all_cuts(c, v))
        cof = [cofactor(c, v, cuts, i) for i in range(len(cuts) + 1)]
        rest = None
        nz = [i for i, x in enumerate(cof) if x is not FALSE]
        if len(cuts) == 2 and nz == [0, 2] and cof[0] is cof[2] and v.args[1] and cuts[1][0] == cuts[0][0] + 1 and abs(a) == 1:
            # L != t
            t = cuts[0][0]
            N = tm.pscale(tm._padd(const(t), tm.pneg(r)), 1 / a)
            return N, cof[0]
        if len(nz) == 0: continue
        vals = {cof[i] for i in nz}
        if len(vals) != 1: continue
        q = cof[nz[0]]
        if a > 0:
            # must be the low regions 0..j
            if nz != list(range(len(nz))) or len(nz) == len(cof): continue
            t, e = cuts[len(nz) - 1]
            # continue while a*k + r < t  (e==0)  or <= t (e==1)
            d = tm._padd(const(t), tm.pneg(r))
            if e == 0: N = d if a == 1 else idiv(tm._padd(d, const(a - 1)), const(a))
            else: N = tm._padd(d, ONE) if a == 1 else tm.add(idiv(d, const(a)), ONE)
            if not v.args[1] and not is_int_poly(d): continue
            return N, q
        else:
            if nz != list(range(len(cof) - len(nz), len(cof))) or len(nz) == len(cof): continue
            t, e = cuts[len(cof) - len(nz) - 1]
            # continue while -|a|k + r >= t (e==0) or > t (e==1)
            d = tm._padd(r, const(-t))
            if e == 0: N = tm._padd(d, ONE) if a == -1 else tm.add(idiv(d, const(-a)), ONE)
            else: N = d if a == -1 else idiv(tm._padd(d, const(-a - 1)), const(-a))
            if not v.args[1] and not is_int_poly(d): continue
            return N, q
    return None, c

def is_int_poly(p):
    return all(c.denominator == 1 for m, c in p.args[0])

class SplitOn(Exception):
    def __init__(self, v, cuts): self.v = v; self.cuts = cuts

def symbolic(I, s, cond, body, inc):
    known = dict(tm.LENOF)
    start = dict(I.S.store); g0 = I.S.guard; nb = len(I.btype)
    try: return symbolic1(I, s, cond, body, inc)
    except SplitOn as e: split = e
    finally:
        tm.LENOF.clear(); tm.LENOF.update(known)
    # the number of iterations depends on a test that no iteration changes: one loop for each of its outcomes
    from interp import State
    v, cuts = split.v, split.cuts
    outs = []
    for i in range(len(cuts) + 1 if v.op == 'tr' else 2):
        kids = [FALSE] * (len(cuts) + 1 if v.op == 'tr' else 2); kids[i] = TRUE
        g = land(g0, tm.mk_ite(v, cuts, tuple(kids)))
        if g is FALSE: continue
        I.S = State({b: given(x, v, cuts, i) for b, x in start.items()}, g)
        if not unroll(I, cond, body, inc): symbolic(I, s, cond, body, inc)
        if not I.S.dead: outs.append((I.S.guard, I.S.store))
    I.join(outs)

def given(x, v, cuts, i):
    if not isinstance(x, T): return x
    if x.op == 'rec': return mkrec(x.args[0], [(f, given(y, v, cuts, i)) for f, y in x.args[1]])
    if x.op != 'ite': return x
    if v.op == 'tr':
        have = all_cuts(x, v)
        if have:
            allc = tuple(sorted(set(cuts) | have))
            if len(allc) > len(cuts):
                lo = 0 if i == 0 else allc.index(cuts[i - 1]) + 1
                hi = len(allc) if i == len(cuts) else allc.index(cuts[i])
                y = cofactor(x, v, allc, lo)
                return y if lo == hi or all(cofactor(x, v, allc, j) is y for j in range(lo, hi + 1)) else x
    return cofactor(x, v, cuts, i)

def keepslen(I, sl, stores):
    """every state an iteration may leave holds this sequence with elements overwritten at most"""
    def f(x):
        while x.op == 'upd': x = x.args[0]
        if x is not sl.fs: raise _No()
        return ZERO
    try:
        for st in stores:
            if sl.base in st: expand(f, (I.rpath(st[sl.base], sl.path),))
    except _No: return False
    return True

def symbolic1(I, s, cond, body, inc):
    from interp import State, isnum, Unsupported
    level = I.looplevel
    E = I.S.store
    g0 = I.S.guard
    ctx = I.ctx
    slots = {}
    banned = set()
    # ---- 1. which leaves change
    for rnd in range(12):
        store = dict(E)
        install(I, store, slots.values(), lambda sl: wrap(sl.kind, sl.fs))
        r = iteration(I, store, cond, body, inc)
        new = {}
        stores = [r.exit] + ([r.next] if r.nguard is not FALSE else []) + [x[1] for x in r.breaks] + [x[1] for x in r.returns] + [x[1] for x in r.throws]
        again = False
        for st in stores:
            for b, v in st.items():
                if b not in E:
                    if isinstance(b, tuple):
                        if b[0] == 'fx': E[b] = NIL if b[1] == 'log' else ZERO
                        else:
                            # first touched inside the loop: its entry value is its initial value
                            I.S = State(E, g0)
                            if b[0] == 'D' and any(sl.fs in b[1].fs for sl in slots.values()):
                                continue
                            I.getbase(b, I.btype.get(b, '?'))
                        again = True
                    continue
                if v is store.get(b): continue
                if b not in store: again = True; continue
                out = {}
                diff(I, store[b], v, I.btype.get(b, '?'), (), out)
                for path, ty in out.items():
                    if (b, path) not in slots and (b, path) not in new: new[(b, path)] = ty
        if not new and not again:
            for sl in slots.values():
                if sl.kind != 'r' or sl.fs in banned: continue
                ok = keepslen(I, sl, stores)
                if ok and sl.fs not in tm.LENOF: tm.LENOF[sl.fs] = length(sl.init); again = True
                elif not ok and sl.fs in tm.LENOF: del tm.LENOF[sl.fs]; banned.add(sl.fs); again = True
            if not again: break
        for (b, path), ty in new.items():
            # a coarser slot subsumes finer ones
            for kk in [q for q in slots if q[0] == b and q[1][:len(path)] == path and len(q[1]) > len(path)]: del slots[kk]
            if any(q[0] == b and path[:len(q[1])] == q[1] for q in slots): continue
            sl = Slot()
            sl.base, sl.path, sl.ty = b, path, ty
            sl.init = I.rpath(E[b], path)
            sl.kind = kind_of(sl.init, ty)
            sl.fs = fresh(level, tag='s')
            sl.at = sl.fin = sl.step = None
            slots[(b, path)] = sl
    else:
        raise TooBig('loop fixpoint')
    SL = list(slots.values())
    # ---- 2. counters
    k0 = fresh(level)
    N = None
    rot = None
    for rnd in range(8):
        # values of the slots one iteration later
        progress = False
        if r.nguard is not FALSE:
            for sl in SL:
                if sl.at is not None: continue
                nv = I.rpath(r.next[sl.base], sl.path)
                if sl.kind == 'n' and nv.op == 'poly':
                    d = tm._padd(nv, tm.pneg(num(sl.fs)))
                    if is_const(d):
                        sl.step = cval(d)
                        sl.at = (lambda sl: lambda k: add(sl.init, mul(const(sl.step), k)))(sl)
                        sl.fin = sl.at
                        progress = True
        if not progress: break
        open_ = frozenset(sl.fs for sl in SL if sl.at is None)
        counters = {sl.fs: sl.at(num(k0)) for sl in SL if sl.step is not None}
        if N is None:
            c = subst(r.cond, counters)
            N, rest = tripcount(c, k0, open_)
            rot = rotation(I, SL, E, r, rest, k0, open_)
            if N is not None and N.op == 'ite' and (r.breaks or r.returns or r.throws):
                raise SplitOn(N.args[0], N.args[1])
        k = fresh(level, ZERO, N if N is not None and N.op == 'poly' else None)
        store = dict(E)
        install(I, store, SL, lambda sl: sl.at(num(k)) if sl.at else wrap(sl.kind, sl.fs))
        r = rotated(I, SL, iteration(I, store, cond, body, inc, rot), rot, k)
    else:
        raise TooBig('loop counters')
    if not any(sl.step is not None for sl in SL):
        k = fresh(level, ZERO, None)
    K = num(k)
    if r.nguard is not FALSE:
        # sequences that grow by a fixed number of elements per iteration
        more = False
        for sl in SL:
            if sl.kind != 'r' or sl.at is not None or sl.fs in tm.LENOF or not isseq(I, sl): continue
            try: d = tm.sub(length(I.rpath(r.next[sl.base], sl.path)), length(sl.fs))
            except Exception: continue
            if is_const(d) and cval(d): tm.LENOF[sl.fs] = add(length(sl.init), mul(d, K)); more = True
        if more:
            store = dict(E)
            install(I, store, SL, lambda sl: sl.at(K) if sl.at else wrap(sl.kind, sl.fs))
            r = rotated(I, SL, iteration(I, store, cond, body, inc, rot), rot, k)
    # ---- 3. folds, to a fixpoint
    for rnd in range(8):
        open_ = frozenset(sl.fs for sl in SL if sl.at is None)
        progress = False
        exits_closed = N is not None and not any(x.fs & open_ for x in exit_guards(r))
        if r.nguard is FALSE or N is None or not exits_closed:
            # without a trip count only values that are functions of k can be closed
            pass
        if r.nguard is not FALSE and N is not None:
            for sl in SL:
                if sl.at is not None: continue
                nv = I.rpath(r.next[sl.base], sl.path)
                nvg = nv
                nv = within(nv, r.nguard, open_)
                deps = nv.fs & open_
                if deps - {sl.fs}: continue
                try: f = fold(I, sl, nv, k, N, deps)
                except TooBig: f = None
                if f is not None:
                    sl.at, sl.fin = f
                    progress = True
        if not progress: break
        store = dict(E)
        install(I, store, SL, lambda sl: sl.at(K) if sl.at else wrap(sl.kind, sl.fs))
        r = rotated(I, SL, iteration(I, store, cond, body, inc, rot), rot, k)
    open_ = frozenset(sl.fs for sl in SL if sl.at is None)
    finish(I, s, SL, E, g0, r, k, N, open_, store)

def rotation(I, SL, E, r, rest, k0, open_):
    """the part of the loop's condition that is not its trip count holds on entry: it may as well be
    tested at the end of each iteration"""
    if rest is TRUE or rest is FALSE or not rest.fs & open_ or r.nguard is FALSE: return None
    m = {sl.fs: sl.init for sl in SL if sl.at is None}
    m[k0] = ZERO
    try:
        if subst(rest, m) is not TRUE: return None
        for sl in SL:
            ev = I.rpath(r.exit[sl.base], sl.path)
            if ev is not wrap(sl.kind, sl.fs): return None
    except TooBig: return None
    return rest, k0, open_

def rotated(I, SL, r, rot, k):
    if rot is None or r.nguard is FALSE: return r
    rest, k0, open_ = rot
    m = {sl.fs: I.rpath(r.next[sl.base], sl.path) for sl in SL if sl.fs in open_}
    m[k0] = add(num(k), ONE)
    c = subst(rest, m)
    r.cond = TRUE
    g = land(r.nguard, lnot(c))
    if g is not FALSE: r.breaks = r.breaks + [(g, r.next)]
    r.nguard = land(r.nguard, c)
    return r

def within(nv, g, open_):
    """the value an iteration leaves, given that it is not the last"""
    if g is TRUE or g is FALSE or nv.op != 'ite': return nv
    try: u = under(g, nv)
    except TooBig: return nv
    if u.op != 'ite' and not u.fs & open_: return u
    return nv

def isseq(I, sl):
    from interp import isseqty
    return isseqty(sl.ty)

def exit_guards(r):
    out = [x[0] for x in r.breaks] + [x[0] for x in r.returns] + [x[0] for x in r.throws]
    if r.cond is not TRUE: out.append(r.cond)
    return out

def install(I, store, slots, val):
    for sl in slots:
        v = store[sl.base]
        store[sl.base] = setpath(I, v, sl.path, val(sl), I.btype.get(sl.base, '?'))

def setpath(I, v, path, val, ty):
    if not path: return val
    p = path[0]
    cls = None
    x = v
    while x.op == 'ite': x = x.args[2][0]
    if x.op == 'rec': cls = x.args[0]
    else:
        fs = I.fields(ty)
        cls = ty if fs and any(f == p[1] for f, _ in fs) else I.clsof(p[1], ty)
    out = []
    for f, t in I.fields(cls):
        if f == p[1]: out.append((f, setpath(I, fld(f, t, v), path[1:], val, t)))
        else: out.append((f, fld(f, t, v)))
    return mkrec(cls, out)

# ---------------------------------------------------------------------------- folds
def fold(I, sl, nv, k, N, deps):
    K = num(k)
    s = sl.fs
    init = sl.init
    def inst(v, p): return subst(v, {k: p})
    def jfresh(hi): return fresh(k.lvl + 1, ZERO, hi if hi is not None and hi.op == 'poly' else None)
    if s not in deps:
        # overwritten on every iteration
        def at(p):
            z = eqn(p, ZERO, True)
            return ite(z, init, inst(nv, sub(p, ONE)))
        def fin(p): return ite(lt(ZERO, p, True), inst(nv, sub(p, ONE)), init)
        return at, fin
    if sl.kind == 'n':
        # additive
        d = sub(nv, num(s))
        if s not in d.fs:
            def at(p):
                j = jfresh(p)
                return add(init, mksum(j, ZERO, p, inst(d, num(j))))
            return at, at
        r = maxfold(sl, nv, k)
        if r is not None:
            neg_, bodyv = r
            def at(p):
                j = jfresh(p)
                b = inst(bodyv, num(j))
                if neg_:
                    b = tm.neg(b)
                    m = mkmaxov(j, ZERO, p, b)
                    x = tm.mn(init, tm.neg(m))
                else:
                    m = mkmaxov(j, ZERO, p, b)
                    x = tm.mx(init, m)
                return ite(lt(ZERO, p, True), x, init)
            def fin(p):
                j = jfresh(p)
                b = inst(bodyv, num(j))
                if neg_: return tm.mn(init, tm.neg(mkmaxov(j, ZERO, p, tm.neg(b))))
                return tm.mx(init, mkmaxov(j, ZERO, p, b))
            return at, fin
    if sl.kind == 'b':
        a1 = subst(nv, {s: TRUE}); a0 = subst(nv, {s: FALSE})
        if a1 is TRUE:      # or-fold
            def at(p):
                j = jfresh(p)
                return lor(init, mkany(j, ZERO, p, inst(a0, num(j))))
            return at, at
        if a0 is FALSE:     # and-fold
            def at(p):
                j = jfresh(p)
                return land(init, lnot(mkany(j, ZERO, p, inst(lnot(a1), num(j)))))
            return at, at
        if a0 is lnot(a1):  # parity
            def at(p):
                j = jfresh(p)
                x = mkparity(j, ZERO, p, inst(a0, num(j)))
                return ite(init, lnot(x), x)
            return at, at
    if sl.kind == 'r':
        r = appfold(s, nv)
        if r is not None:
            def at(p):
                j = jfresh(p)
                return cat(init, mkcomp(j, ZERO, p, inst(r, num(j))))
            return at, at
        r = fillfold(I, sl, nv, k, N)
        if r is not None: return r
        r = mapfold(I, sl, nv, k)
        if r is not None: return r
    # conditional overwrite: keeps s or takes a value independent of s
    cv = condkeep(sl, nv)
    if cv is not None:
        P, V = cv
        def at(p):
            j = jfresh(p)
            Pj = inst(P, num(j))
            lastp = mklast(j, ZERO, p, Pj)
            return ite(mkany(j, ZERO, p, Pj), inst(V, lastp), init)
        return at, at
    return None

def condkeep(sl, nv):
    s = sl.fs
    me = wrap(sl.kind, s)
    # the set of leaves equal to s
    if nv.op != 'ite' and nv is not me: return None
    if sl.kind == 'b': return None
    def isme(x): return x is me
    try:
        P = expand(lambda x: B(not isme(x)), (nv,))
    except Exception: return None
    if s in P.fs: return None
    vals = []
    for lf in dd_leaves(nv):
        if lf is me: continue
        if s in lf.fs: return None
        vals.append(lf)
    V = None
    # value with the keep leaves replaced by an arbitrary other leaf
    if not vals: return None
    V = dcfill(nv, me)
    if s in V.fs: return None
    return P, V

def dcfill(dd, hole):
    """dd with the leaves `hole` replaced by whatever keeps it small"""
    memo = {}
    def rec(x):
        if x is hole: return None
        if x.op != 'ite': return x
        if x in memo: return memo[x]
        kids = [rec(y) for y in x.args[2]]
        some = [y for y in kids if y is not None]
        if not some: r = None
        else:
            last = some[0]; out = []
            for y in kids:
                if y is not None: last = y
                out.append(last)
            r = out[0] if all(y is out[0] for y in out) else tm._node(x.args[0], x.args[1], tuple(out))
        memo[x] = r
        return r
    return rec(dd)

_HOLE = mk('sym', '$hole')
def under(g, v):
    """v, simplified for the case that g holds"""
    if v.op != 'ite' or g is TRUE or g is FALSE or not tm._isbooldd(g): return v
    r = dcfill(expand(lambda c, x: x if c is TRUE else _HOLE, (g, v)), _HOLE)
    return v if r is None else r

def dd_leaves(v):
    out = []
    seen = set()
    def rec(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'ite':
            for y in x.args[2]: rec(y)
        else: out.append(x)
    rec(v)
    return out

def appfold(s, nv):
    """nv = s ++ X(k) on every leaf"""
    def f(x):
        if x is s: return NIL
        if x.op == 'cat' and x.args[0] and x.args[0][0] is s:
            rest = x.args[0][1:]
            if any(s in p.fs for p in rest): raise _No()
            return tm._cat(*rest)
        raise _No()
    try: r = expand(f, (nv,))
    except _No: return None
    if s in r.fs: return None
    return r

class _No(Exception): pass

def maxfold(sl, nv, k):
    s = sl.fs
    me = num(s)
    neg_ = [None]
    def f(x):
        if x is me: return mk('keep')
        if x.op != 'poly': raise _No()
        # x = (s + v)/2 +- |s - v|/2
        ab = [(m, c) for m, c in x.args[0] if any(a.op == 'abs' and s in a.fs for a, e in m)]
        if len(ab) != 1: raise _No()
        m, c = ab[0]
        if len(m) != 1 or m[0][1] != 1: raise _No()
        inner = m[0][0].args[0]
        lin = tm._linear_in(inner, s)
        if lin is None or lin[0] == 0: raise _No()
        q, rest = lin
        v = pscale(rest, -1 / q)          # inner = q*(s - v)
        coef = c * abs(q)
        base = tm._padd(x, tm.pneg(mk('poly', ((m, c),))))
        want = pscale(tm._padd(me, v), Fraction(1, 2))
        if base is not want or abs(coef) != Fraction(1, 2): raise _No()
        n = coef < 0
        if neg_[0] is None: neg_[0] = n
        elif neg_[0] != n: raise _No()
        return v
    try: r = expand(f, (nv,))
    except _No: return None
    if s in r.fs or neg_[0] is None: return None
    if any(x.op == 'keep' for x in dd_leaves(r)):
        # guarded maximum: iterations that keep s contribute the initial value
        if sl.init.op == 'ite': return None
        r = expand(lambda x: sl.init if x.op == 'keep' else x, (r,))
    return neg_[0], r

def mapfold(I, sl, nv, k):
    """elements overwritten in place, at one affine index per iteration (or several next to it), from what the places
    not visited yet held before"""
    s = sl.fs
    if s not in tm.LENOF: return None
    from interp import elty
    ity = elty(sl.ty)
    idx = set()
    def f(x):
        while x.op == 'upd': idx.add(x.args[1]); x = x.args[0]
        if x is not s: raise _No()
        return ZERO
    try: expand(f, (nv,))
    except _No: return None
    a = None; base = None; offs = []
    for i in idx:
        if s in i.fs: return None
        lin = tm._linear_in(i, k)
        if lin is None or lin[0] <= 0 or lin[0].denominator != 1 or (a is not None and a != lin[0]): return None
        a = lin[0]
        if base is None: base = lin[1]
        d = tm._padd(lin[1], tm.pneg(base))
        if not is_const(d): return None
        offs.append(cval(d))
    if a is None: return None
    m = min(offs)
    if max(offs) - m >= a or any(o.denominator != 1 for o in offs): return None
    start = tm._padd(base, const(m))
    if k in start.fs: return None
    a = int(a)
    cur = add(start, mul(const(a), num(k)))
    # what is read of the sequence lies at or after this iteration's first place
    todo = [nv]; seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x); continue
        if not isinstance(x, tm.T) or x in seen or s not in x.fs: continue
        seen.add(x)
        if x is s: return None
        if x.op == 'upd' and x.args[0] is s: todo.append(x.args[1]); todo.append(x.args[2]); continue
        if x.op == 'sel' and x.args[0] is s:
            if s in x.args[1].fs: return None
            d = tm._padd(x.args[1], tm.pneg(cur)) if x.args[1].op == 'poly' else None
            if d is None or not is_const(d) or cval(d) < 0: return None
            continue
        if x.op == 'ite':
            todo.append(x.args[0]); todo.extend(y for y in x.args[2] if y is not s)
            continue
        todo.extend(y for y in x.args if isinstance(y, (tm.T, tuple)))
    init = sl.init
    L = length(init)
    def leaf(o):
        def f(x):
            while x.op == 'upd':
                d = tm._padd(tm._padd(x.args[1], tm.pneg(cur)), const(-o))
                if is_const(d) and cval(d) == 0: return x.args[2]
                x = x.args[0]
            return tm.sel(s, add(cur, const(o)), ity)
        return expand(f, (nv,))
    vals = [subst(leaf(o), {s: init}) for o in range(a)]
    if any(s in v.fs for v in vals): return None
    def at(pk):
        j = fresh(k.lvl + 1, ZERO, pk if pk.op == 'poly' else None)
        b = lit(*[subst(v, {k: num(j)}) for v in vals])
        return cat(slice_(init, ZERO, start), mkcomp(j, ZERO, pk, b), slice_(init, add(start, mul(const(a), pk)), L))
    return at, at

def fillfold(I, sl, nv, k, N):
    """array filled by stores at affine indices"""
    s = sl.fs
    ups = []
    x = nv
    while x.op == 'upd':
        ups.append((x.args[1], x.args[2])); x = x.args[0]
    if x is not s or not ups: return None
    ups.reverse()
    a = None
    lst = []
    for i, v in ups:
        if s in i.fs or s in v.fs: return None
        lin = tm._linear_in(i, k)
        if lin is None: return None
        if a is None: a = lin[0]
        if lin[0] != a or a <= 0 or a.denominator != 1: return None
        lst.append((lin[1], v))
    if len(lst) != a: return None
    b0 = lst[0][0]
    offs = []
    for b, v in lst:
        d = tm._padd(b, tm.pneg(b0))
        if not is_const(d): return None
        offs.append(cval(d))
    mn_ = min(offs)
    order = sorted(range(len(offs)), key=lambda i: offs[i])
    if [offs[i] - mn_ for i in order] != list(range(int(a))): return None
    start = tm._padd(b0, const(mn_))
    vals = [lst[i][1] for i in order]
    init = sl.init
    if init.op != 'cat': return None
    off = ZERO
    for n, p in enumerate(init.args[0]):
        if p.op == 'uninit' and off is start:
            pre = init.args[0][:n]; post = init.args[0][n + 1:]
            def at(pk):
                j = fresh(k.lvl + 1, ZERO, pk if pk.op == 'poly' else None)
                b = lit(*[subst(v, {k: num(j)}) for v in vals])
                rest = sub(p.args[0], mul(const(a), pk))
                return cat(mk('cat', tuple(pre)) if pre else NIL, mkcomp(j, ZERO, pk, b),
                           mk('cat', (mk('uninit', rest),)) if rest is not ZERO else NIL, mk('cat', tuple(post)) if post else NIL)
            return at, at
        off = add(off, tm._len1(p))
        if off.op != 'poly': return None
    return None

# ---------------------------------------------------------------------------- completion
def finish(I, s, SL, E, g0, r, k, N, open_, start):
    from interp import State, Unsupported
    ctx = I.ctx
    K = num(k)
    rest = r.cond            # with ranged k: TRUE for plainly counted loops
    exits = []
    if rest is not TRUE:
        if rest is not FALSE or N is not None:
            if N is not None: exits.append(('brk', lnot(rest), r.exit, None))
    for g, st in r.breaks: exits.append(('brk', g, st, None))
    for g, st, v in r.returns: exits.append(('ret', g, st, v))
    for g, st, et, site in r.throws: exits.append(('thr', g, st, (et, site)))
    closed = N is not None and not any(x[1].fs & open_ for x in exits)
    if N is not None and r.nguard is FALSE and not exits: closed = True
    if closed and not open_:
        return closed_finish(I, SL, E, g0, r, k, N, exits, start)
    if closed and not exits:
        # counted loop without early exit, some slots are general recurrences
        outs = {}
        gen = general(I, SL, r, k, N, TRUE, [sl for sl in SL if sl.at is None], {})
        st = dict(E)
        install(I, st, SL, lambda sl: sl.fin(N) if sl.fin else gen[sl.key()])
        I.S = State(st, g0)
        return
    # general loop with exits
    kinds = sorted({x[0] for x in exits})
    posts = {}
    xf = fresh(k.lvl, tag='x')
    extra = []
    contg = r.nguard
    if contg is FALSE and not exits: raise Unsupported('loop never continues')
    for sl in SL:
        v = I.rpath(r.next[sl.base], sl.path) if r.nguard is not FALSE else None
        for kd, g, st, val in exits:
            w = I.rpath(st[sl.base], sl.path)
            v = w if v is None else (v if w is v else ite(g, w, v))
        posts[sl.key()] = v
    codes = None
    if any(x[0] in ('ret', 'thr') for x in exits):
        codes = ZERO
        rets = [x for x in exits if x[0] in ('ret', 'thr')]
        for n, x in enumerate(exits):
            if x[0] == 'brk': continue
        # returns share one code, each kind of exception has its own
        thr = sorted({x[3][0] for x in exits if x[0] == 'thr'})
        for kd, g, st, val in exits:
            if kd == 'ret': codes = ite(g, const(1), codes)
            elif kd == 'thr': codes = ite(g, const(2 + thr.index(val[0])), codes)
    retv = None
    for kd, g, st, val in exits:
        if kd == 'ret':
            from interp import VOID
            if val is VOID: continue
            retv = val if retv is None else ite(g, val, retv)
    # continue condition at the start of an iteration
    C = TRUE
    if N is None: C = rest
    exiting = FALSE
    for x in exits: exiting = lor(exiting, x[1])
    plus = []
    if exits:
        xs = Slot(); xs.base = ('x', 1); xs.path = (); xs.fs = xf; xs.init = FALSE; xs.kind = 'b'; xs.at = None; xs.fin = None; xs.ty = 'bool'; xs.step = None
        posts[xs.key()] = exiting
        plus.append(xs)
        C = land(C, lnot(batom(xf)))
    if codes is not None:
        cs = Slot(); cs.base = ('x', 2); cs.path = (); cs.fs = fresh(k.lvl, tag='c'); cs.init = ZERO; cs.kind = 'n'; cs.at = None; cs.fin = None; cs.ty = 'int'; cs.step = None
        posts[cs.key()] = codes
        plus.append(cs)
    if retv is not None:
        rs = Slot(); rs.base = ('x', 3); rs.path = (); rs.fs = fresh(k.lvl, tag='r'); rs.init = mk('none'); rs.kind = kind_of(retv, '?'); rs.at = None; rs.fin = None; rs.ty = '?'; rs.step = None
        posts[rs.key()] = retv
        plus.append(rs)
    gen = general(I, SL + plus, r, k, N, C, SL + plus, posts)
    # side effects of evaluating the condition
    st = dict(E)
    install(I, st, SL, lambda sl: gen[sl.key()])
    if N is None:
        for sl in SL:
            ev = I.rpath(r.exit[sl.base], sl.path)
            sv = I.rpath(start[sl.base], sl.path)
            if ev is not sv:
                raise Unsupported('condition with side effects')
    if codes is None:
        I.S = State(st, g0)
        return
    code = gen[(('x', 2), ())]
    thr = sorted({x[3][0] for x in exits if x[0] == 'thr'})
    gret = eqn(code, const(1), True)
    normal = lnot(gret) if any(x[0] == 'ret' for x in exits) else TRUE
    for n in range(len(thr)): normal = land(normal, lnot(eqn(code, const(2 + n), True)))
    if any(x[0] == 'ret' for x in exits):
        g = land(g0, gret)
        if g is not FALSE: ctx.returns.append((g, dict(st), gen[(('x', 3), ())] if retv is not None else __import__('interp').VOID))
    for n, et in enumerate(thr):
        g = land(g0, eqn(code, const(2 + n), True))
        site = [x[3][1] for x in exits if x[0] == 'thr' and x[3][0] == et][0]
        if g is not FALSE: ctx.throws.append((g, dict(st), et, site))
    I.S = State(st, land(g0, normal))

def closed_finish(I, SL, E, g0, r, k, N, exits, start):
    from interp import State
    ctx = I.ctx
    if not exits:
        st = dict(E)
        install(I, st, SL, lambda sl: sl.fin(N))
        I.S = State(st, g0)
        return
    X = FALSE
    for x in exits: X = lor(X, x[1])
    j = fresh(k.lvl + 1, ZERO, N if N.op == 'poly' else None)
    Xj = subst(X, {k: num(j)})
    anyx = mkany(j, ZERO, N, Xj)
    j2 = fresh(k.lvl + 1, ZERO, N if N.op == 'poly' else None)
    f = mkfirst(j2, ZERO, N, subst(X, {k: num(j2)}))
    m = {k: f}
    onlybrk = all(x[0] == 'brk' for x in exits)
    def same(sl):
        return onlybrk and all(I.rpath(x[2][sl.base], sl.path) is I.rpath(start[sl.base], sl.path) for x in exits)
    nst = dict(E)
    install(I, nst, SL, lambda sl: sl.at(f) if same(sl) else sl.fin(N))
    outs = []
    ng = land(g0, lnot(anyx))
    done = FALSE
    for kd, g, st, val in exits:
        ge = land(anyx, subst(g, m)) if len(exits) > 1 else anyx
        gg = land(g0, ge)
        if gg is FALSE: continue
        est = dict(E)
        live = SL if kd != 'ret' else [sl for sl in SL if sl.base not in ctx.locals]
        install(I, est, live, lambda sl: subst(under(g, I.rpath(st[sl.base], sl.path)), m))
        if kd == 'brk': outs.append((gg, est))
        elif kd == 'ret': ctx.returns.append((gg, est, subst(under(g, val), m)))
        else: ctx.throws.append((gg, est, val[0], val[1]))
    if ng is not FALSE: outs.append((ng, nst))
    I.join(outs)

def general(I, SL, r, k, N, C, want, posts):
    """canonical mu-terms for the slots in `want`"""
    gens = list(want)
    nxt = {}
    for sl in gens:
        if posts: nxt[sl.fs] = posts[sl.key()]
        else: nxt[sl.fs] = I.rpath(r.next[sl.base], sl.path)
    byfs = {sl.fs: sl for sl in gens}
    allfs = frozenset(byfs)
    if DEBUG:
        nm = {sl.fs: wrap(sl.kind, mk('sym', 'S' + hashlib.md5(sl.init.key).hexdigest()[:4])) for sl in SL}
        nm[k] = mk('sym', 'K')
        DUMP.append((tm.subst(C, nm), {str(nm[sl.fs]): ('.'.join([str(sl.base)] + [str(q[1]) for q in sl.path]), tm.subst(nxt[sl.fs], nm)) for sl in gens}, N))
    bad = frozenset(sl.fs for sl in SL) - allfs
    deps = {f: (nxt[f].fs & allfs) for f in byfs}
    cdeps = C.fs & allfs
    def closure(start):
        seen = set(start); st = list(start)
        while st:
            x = st.pop()
            for y in deps[x]:
                if y not in seen: seen.add(y); st.append(y)
        return seen
    cclo = closure(cdeps)
    # colour refinement
    bvk = BV(99999)
    col = {f: hashlib.md5((byfs[f].kind).encode() + byfs[f].init.key).hexdigest() for f in byfs}
    distinct = len(set(col.values())) == len(col)
    bodies = {} if distinct else {f: subst(nxt[f], {k: num(bvk)}) for f in byfs}
    Cb = None if distinct else subst(C, {k: num(bvk)})
    Nk = N.key if N is not None else b'-'
    nclass = len(set(col.values()))
    rounds = 0
    while not distinct:
        m = {f: SLOT(99999, col[f], byfs[f].kind) for f in byfs}
        ck = subst(Cb, m).key
        ncol = {f: hashlib.md5(col[f].encode() + subst(bodies[f], m).key + ck + Nk).hexdigest() for f in byfs}
        n2 = len(set(ncol.values()))
        rounds += 1
        stable = n2 == nclass
        nclass = n2
        col = ncol
        if stable and rounds >= 2: break
        if rounds > 12: break
    rep = {}
    for f in sorted(byfs, key=lambda f: f.key): rep.setdefault(col[f], f)
    # canonical colours: number of rounds depends only on the structure
    out = {}
    for sl in gens:
        clo = closure({sl.fs}) | cclo
        reps = sorted({col[f] for f in clo})
        idx = {c: i for i, c in enumerate(reps)}
        fsr = [rep[c] for c in reps]
        # order by what is left when only the closure is coloured
        h = height(*([byfs[f].init for f in fsr] + [nxt[f] for f in fsr] + [C] + ([N] if N is not None else [])))
        m = {f: SLOT(h, idx[col[f]], byfs[f].kind) for f in clo}
        m[k] = num(BV(h))
        # two-step substitution keeps placeholders apart
        nx = tuple(subst(nxt[f], m) for f in fsr)
        cc = subst(C, m)
        loop = mk('loop', h, N if N is not None else mk('unbounded'), cc, tuple(byfs[f].init for f in fsr), nx, tuple(byfs[f].kind for f in fsr))
        loop, perm = tm.canonloop(loop)
        out[sl.key()] = wrap(sl.kind, mk('lout', loop, perm[idx[col[sl.fs]]]))
    return out
