"""Hash-consed value graph: gated (multi-valued decision diagram) terms over rational-function
normal forms, sequences, records, maps and summarised loops.  Pure rewriting to a normal form; no
solver, no enumeration of inputs, nothing of the analysed program is executed."""
import hashlib
from fractions import Fraction
from functools import lru_cache
import sys
sys.setrecursionlimit(200000)

class TooBig(Exception):
    pass

EMPTY = frozenset()

class T(object):
    __slots__ = ('op', 'args', 'key', 'h', 'lvl', 'fs', 'flags', '_memo')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.key < o.key

_table = {}
OPQ = 1      # term contains something the engine does not model
GLOOP = 2    # term contains an un-summarised loop
UNDEF = 4

def _key(x):
    if isinstance(x, T):
        return x.key
    if isinstance(x, tuple):
        return b'(' + b','.join(_key(y) for y in x) + b')'
    return repr(x).encode()

def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t._memo = None
    t.key = hashlib.md5(op.encode() + b'|' + b','.join(_key(a) for a in args)).digest()
    h = 0; lvl = 0; fs = EMPTY; fl = 0
    for a in _subs(args):
        if a.h > h: h = a.h
        if a.lvl > lvl: lvl = a.lvl
        if a.fs: fs = fs | a.fs if fs else a.fs
        fl |= a.flags
    if op in BINDERS:
        bound = BV(args[0])
        if bound in fs: fs = fs - {bound}
        fs = frozenset(x for x in fs if not (x.op == 'slot' and x.args[0] == args[0]))
        h = max(h, args[0])
        lvl = 0
        for x in fs:
            if x.lvl > lvl: lvl = x.lvl
    elif op == 'opq': fl |= OPQ
    elif op == 'undef': fl |= UNDEF
    if op == 'loop': fl |= GLOOP
    t.h = h; t.lvl = lvl; t.fs = fs; t.flags = fl
    _table[k] = t
    return t

def _subs(args):
    for a in args:
        if isinstance(a, T): yield a
        elif isinstance(a, tuple):
            for x in _subs(a): yield x

BINDERS = {'sum', 'any', 'first', 'last', 'comp', 'maxov', 'parity', 'loop', 'fn'}
_bv = {}
def BV(h):
    t = _bv.get(h)
    if t is None:
        t = T(); t.op = 'bv'; t.args = (h,); t.key = ('bv%d' % h).encode(); t.h = 0; t.lvl = 10**6; t.flags = 0
        t.fs = frozenset([t]); t._memo = None
        _bv[h] = t
    return t

_slots = {}
def SLOT(h, i, kind):
    k = (h, i, kind)
    t = _slots.get(k)
    if t is None:
        t = T(); t.op = 'slot'; t.args = k; t.key = ('slot%d.%s.%s' % k).encode(); t.h = 0; t.lvl = 10**6; t.flags = 0
        t.fs = frozenset([t]); t._memo = None
        _slots[k] = t
    return t

_fsn = [0]
RANGE = {}      # fresh symbol -> (lo, hi) : lo <= fs < hi, hi may be None
def fresh(level, lo=None, hi=None, tag='k'):
    _fsn[0] += 1
    t = T(); t.op = 'fs'; t.args = (_fsn[0], tag); t.key = ('fs%08d' % _fsn[0]).encode(); t.h = 0; t.lvl = level; t.flags = 0
    t.fs = frozenset([t]); t._memo = None
    if lo is not None:
        RANGE[t] = (lo, hi)
    return t

def atom(name, *args):
    return mk(name, *args)

# ------------------------------------------------------------------ polynomials
def _mono_mul(a, b):
    if not a: return b, None
    if not b: return a, None
    d = dict(a)
    special = False
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0: d.pop(x, None)
        else: d[x] = n
        if x.op in ('sqrt', 'abs') and abs(n) >= 2: special = True
    m = tuple(sorted(d.items(), key=lambda p: p[0].key))
    return m, special

def pmake(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda p: tuple((x.key, e) for x, e in p[0]))
    return mk('poly', tuple(items))

def const(c):
    return pmake({(): Fraction(c)})

ZERO = None; ONE = None

def num(a):
    """numeric atom -> poly"""
    if a.op in ('poly', 'ite'): return a
    return mk('poly', ((((a, 1),), Fraction(1)),))

def is_const(p):
    return p.op == 'poly' and (not p.args[0] or (len(p.args[0]) == 1 and p.args[0][0][0] == ()))
def cval(p):
    if not p.args[0]: return Fraction(0)
    return p.args[0][0][1]
def pconst_part(p):
    for m, c in p.args[0]:
        if m == (): return c
    return Fraction(0)

def _padd(a, b):
    if not a.args[0]: return b
    if not b.args[0]: return a
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + c
    return pmake(d)

def pscale(a, q):
    if q == 0: return ZERO
    if q == 1: return a
    return mk('poly', tuple((m, c * q) for m, c in a.args[0]))

def _pmul(a, b):
    if len(a.args[0]) * len(b.args[0]) > 20000: raise TooBig('poly')
    d = {}
    extra = []
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m, sp = _mono_mul(m1, m2)
            if sp:
                extra.append((m, c1 * c2))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = pmake(d)
    for m, c in extra:
        r = _padd(r, _expand_special(m, c))
    return r

def _expand_special(m, c):
    base = []
    r = const(c)
    for x, e in m:
        if x.op == 'sqrt' and abs(e) >= 2:
            q = abs(e) // 2
            p = x.args[0]
            if e < 0: p = pinv(p)
            for _ in range(q): r = _pmul(r, p)
            rem = abs(e) - 2 * q
            if rem: base.append((x, rem if e > 0 else -rem))
        elif x.op == 'abs' and abs(e) >= 2:
            q = abs(e) // 2
            p = _pmul(x.args[0], x.args[0])
            if e < 0: p = pinv(p)
            for _ in range(q): r = _pmul(r, p)
            rem = abs(e) - 2 * q
            if rem: base.append((x, rem if e > 0 else -rem))
        else:
            base.append((x, e))
    return _pmul(r, mk('poly', ((tuple(base), Fraction(1)),))) if base else r

def pneg(a): return pscale(a, Fraction(-1))

def primitive(p):
    """p = q * prim, prim has leading coefficient +1"""
    q = p.args[0][0][1]
    if p.args[0][0][0] == () and len(p.args[0]) > 1:
        q = p.args[0][1][1]
    return q, pscale(p, 1 / q)

def pinv(p):
    if not p.args[0]:
        return num(mk('divzero'))
    if len(p.args[0]) == 1:
        m, c = p.args[0][0]
        return mk('poly', ((tuple((x, -e) for x, e in m), 1 / c),))
    q, pr = primitive(p)
    return pscale(num(mk('inv', pr)), 1 / q)

def ppow(p, n):
    if n < 0: return ppow(pinv(p), -n)
    r = ONE
    for _ in range(n): r = _pmul(r, p)
    return r

def patoms(p):
    s = set()
    for m, c in p.args[0]:
        for x, e in m: s.add(x)
    return s

def pzero_rational(p):
    """is p identically zero as a rational function: clear every inv() / negative power"""
    for _ in range(12):
        if not p.args[0]: return True
        worst = None
        for m, c in p.args[0]:
            for x, e in m:
                if x.op == 'inv' and e > 0:
                    if worst is None or x.key < worst[0].key or (x is worst[0] and e > worst[1]): worst = (x, e)
        if worst is None:
            neg = {}
            for m, c in p.args[0]:
                for x, e in m:
                    if e < 0: neg[x] = min(neg.get(x, 0), e)
            return not p.args[0]
        x = worst[0]; k = max(e for m, c in p.args[0] for y, e in m if y is x)
        d = ZERO
        P = x.args[0]
        for m, c in p.args[0]:
            e = 0; rest = []
            for y, ee in m:
                if y is x: e = ee
                else: rest.append((y, ee))
            t = mk('poly', ((tuple(rest), c),))
            t = _pmul(t, ppow(P, k - e))
            d = _padd(d, t)
        p = d
    return not p.args[0]

ZERO = mk('poly', ())
ONE = const(1)
TRUE = mk('true'); FALSE = mk('false')
def B(v): return TRUE if v else FALSE

# ------------------------------------------------------------------ decision diagrams
# test variables: ('tb', atom)  or ('tr', L, isint)
def tvar(t):
    return t.args[0]
def tcuts(t):
    return t.args[1]
def tkids(t):
    return t.args[2]

_rank = {}
def rank(v):
    r = _rank.get(v)
    if r is None:
        bare = 2
        if v.op == 'tr':
            ms = v.args[0].args[0]
            ks = [m[0][0] for m, c in ms if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('fs', 'bv') and (m[0][0].op == 'bv' or m[0][0].lvl == v.lvl)]
            if len(ks) == 1 and not any(ks[0] in x.fs or x.op not in ('sum', 'len', 'sym') for m, c in ms for x, e in m if x is not ks[0]): bare = 1
            bare = 0 if all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('fs', 'bv', 'len', 'sym') for m, c in v.args[0].args[0]) else bare
        r = (v.lvl, bare, v.key)
        _rank[v] = r
    return r

def _pnorm_form(p):
    """split p = scale*(L - c): returns L, c (threshold), sign"""
    c0 = pconst_part(p)
    rest = tuple((m, c) for m, c in p.args[0] if m != ())
    q = rest[0][1]
    s = 1 if q > 0 else -1
    q = abs(q)
    # scale so that coefficients are coprime integers when they are rationals
    from math import gcd
    den = 1
    for m, c in rest: den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in rest: g = gcd(g, abs(int(c * den)))
    sc = Fraction(den, g)
    L = mk('poly', tuple((m, c * sc * s) for m, c in rest))
    return L, -c0 * sc * s, s

# representation invariants: sequences of indices into a point list are non-negative
NONNEG = {'Polygon::points'}

_SUMNN = {}
def _sumnn(a):
    """a sum whose terms cannot be negative"""
    r = _SUMNN.get(a)
    if r is None:
        _SUMNN[a] = False
        def ok(b):
            if b.op == 'ite': return all(ok(x) for x in b.args[2])
            return b.op == 'poly' and all(c >= 0 and all(x.op in ('len', 'sqrt', 'abs', 'ulong') or e % 2 == 0 or (x.op == 'sum' and _sumnn(x)) for x, e in m) for m, c in b.args[0])
        r = _SUMNN[a] = ok(a.args[3])
    return r

def _linear_range(p, depth=0):
    """(lo, hi) constants bounding the integer/real poly p from known ranges (None = unknown)"""
    lo = pconst_part(p); hi = lo
    lo_known = hi_known = True
    # eliminate ranged atoms whose bounds are symbolic, once each
    for m, c in p.args[0]:
        if m == (): continue
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            r = RANGE.get(a)
            if r is None and a.op in ('first', 'last'):
                r = (a.args[1], _padd(a.args[2], ONE) if a.args[2].op == 'poly' else None)
            if r is not None and depth < 6 and all(x is None or x.op == 'poly' for x in r):
                # lower
                rest = _padd(p, mk('poly', ((m, -c),)))
                L = H = None
                lo_e = r[0] if c > 0 else (_padd(r[1], const(-1)) if r[1] is not None else None)
                hi_e = (_padd(r[1], const(-1)) if r[1] is not None else None) if c > 0 else r[0]
                if lo_e is not None:
                    L = _linear_range(_padd(rest, pscale(lo_e, c)), depth + 1)[0]
                if hi_e is not None:
                    H = _linear_range(_padd(rest, pscale(hi_e, c)), depth + 1)[1]
                # a < hi with hi = n + d also bounds n from below by a + 1 - d
                if depth < 4 and r[1] is not None and c > 0:
                    for m2, c2 in p.args[0]:
                        if m2 == () or m2 == m or c2 <= 0: continue
                        d = _padd(r[1], mk('poly', ((m2, Fraction(-1)),)))
                        if is_const(d):
                            low = _padd(num(a), const(1 - cval(d)))
                            L2 = _linear_range(_padd(_padd(p, mk('poly', ((m2, -c2),))), pscale(low, c2)), depth + 1)[0]
                            if L2 is not None and (L is None or L2 > L): L = L2
                return (L, H)
    for m, c in p.args[0]:
        if m == (): continue
        nonneg = all((x.op in ('len', 'sqrt', 'abs', 'ulong') or e % 2 == 0 or (x.op == 'sum' and _sumnn(x)) or (x.op == 'sel' and x.args[0].op == 'fld' and x.args[0].args[0] in NONNEG)) for x, e in m)
        if nonneg:
            if c > 0: hi_known = False
            else: lo_known = False
        else:
            return (None, None)
    return (lo if lo_known else None, hi if hi_known else None)

def mk_ite(v, cuts, kids):
    """kids ordered by region; merge equal neighbours"""
    if v.op == 'tb':
        if kids[0] is kids[1]: return kids[0]
        if v.args[0].op == 'any': return _anynode(v, kids[0], kids[1])
        return mk('ite', v, (), tuple(kids))
    nc = []; nk = [kids[0]]
    for c, k in zip(cuts, kids[1:]):
        if k is nk[-1]: continue
        nc.append(c); nk.append(k)
    if len(nk) == 1: return nk[0]
    if all(k.op == 'poly' for k in nk):
        r = _absnorm(v, nc, nk)
        if r is not None: return r
    k2 = _absknown(v, nc, nk)
    if k2 is not None: return mk_ite(v, tuple(nc), tuple(k2))
    if all(k.op == 'poly' for k in nk):
        r = None
        if r is not None: return r
    return mk('ite', v, tuple(nc), tuple(nk))

_anymemo = {}
def _anynode(v, no, yes):
    """where a search finds nothing its first (last) position is the end of the range"""
    a = v.args[0].args
    for op in ('first', 'last'):
        F = _table.get((op, a))
        if F is None: continue
        k = (F, no, yes)
        r = _anymemo.get(k)
        if r is None:
            n2 = replace_atom(no, F, a[2]); y2 = replace_atom(yes, F, a[2])
            r = _anymemo[k] = (n2, y2 is n2)
        no = r[0]
        if r[1]: return yes
    return mk('ite', v, (), (no, yes))

def _absknown(v, cuts, kids):
    """|L - c| in the regions where the sign of L - c is known (leaves only)"""
    L = v.args[0]
    out = None
    for c in sorted({x[0] for x in cuts}):
        P = _padd(L, const(-c)) if c else L
        if is_const(P) or len(P.args[0]) == 0: continue
        if len(P.args[0]) == 1: Q = mk('poly', ((P.args[0][0][0], Fraction(1)),)); q = P.args[0][0][1]
        else:
            q = P.args[0][0][1]
            if P.args[0][0][0] == (): q = P.args[0][1][1]
            Q = pscale(P, 1 / q)
        a = _table.get(('abs', (Q,)))
        if a is None: continue
        for i in range(len(kids)):
            # region i: from cuts[i-1] to cuts[i]
            if i > 0 and cuts[i - 1][0] >= c: sg = 1
            elif i < len(cuts) and cuts[i][0] <= c: sg = -1
            else: continue
            if q < 0: sg = -sg
            def f(x):
                return replace_atom(x, a, Q if sg > 0 else pneg(Q)) if x.op in ('poly', 'cat', 'rec') and _hasatom(x, a) else x
            k = (out or kids)[i]
            if k.op == 'ite':
                if not any(_hasatom(l, a) for l in _leaves(k)): continue
                n = expand(f, (k,))
            else: n = f(k)
            if n is not k:
                if out is None: out = list(kids)
                out[i] = n
    return out

def _leaves(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if x.op == 'ite': st.extend(x.args[2])
        else: out.append(x)
    return out

def _hasatom(t, a):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or id(x) in seen: continue
        if x is a: return True
        seen.add(id(x)); st.extend(x.args)
    return False

def _absnorm(v, cuts, kids):
    L = v.args[0]
    if len(kids) == 2: x, z = kids; y = None; c = cuts[0][0]
    elif len(kids) == 3 and cuts[0][0] == cuts[1][0]: x, y, z = kids; c = cuts[0][0]
    else: return None
    d = _padd(x, pneg(z))
    cands = [c]
    if v.args[1]: cands.append(c - 1)
    for cc in cands:
        P = _padd(L, const(-cc))
        q = _prop(d, P)
        if q is None: continue
        if v.args[1] and not (x is _padd(ZERO, pneg(z))): continue
        if y is not None:
            if y is not x and y is not z and _prop(_padd(y, pneg(z)), P) is None: continue
        return _padd(z, pscale(_padd(P, pneg(mkabs(P))), q / 2))
    return None

def _prop(d, P):
    """constant q with d == q*P, or None"""
    if not d.args[0] or len(d.args[0]) != len(P.args[0]): return None
    if d.args[0][0][0] != P.args[0][0][0]: return None
    q = d.args[0][0][1] / P.args[0][0][1]
    if pscale(P, q) is d: return q
    return None

def _absarg(P):
    """rewrite |...| when the sign is known"""
    return None

def mkabs(P):
    if is_const(P): return const(abs(cval(P)))
    lo, hi = _linear_range(P)
    if lo is not None and lo >= 0: return P
    if hi is not None and hi <= 0: return pneg(P)
    if len(P.args[0]) == 1:
        m, c = P.args[0][0]
        # |c*m|: pull the constant, keep the monomial
        if all((x.op in ('sqrt', 'abs', 'len') or e % 2 == 0) for x, e in m): return pscale(mk('poly', ((m, Fraction(1)),)), abs(c))
        return pscale(num(mk('abs', mk('poly', ((m, Fraction(1)),)))), abs(c))
    q = P.args[0][0][1]
    if P.args[0][0][0] == (): q = P.args[0][1][1]
    return pscale(num(mk('abs', pscale(P, 1 / q))), abs(q))

_BUD = [0]
def budget(n):
    _BUD[0] = n
def _tick():
    _BUD[0] -= 1
    if _BUD[0] < 0: raise TooBig('budget')

def expand(fn, args):
    """apply fn to the leaves of the decision diagrams in args"""
    cache = {}
    def rec(args):
        r = cache.get(args)
        if r is not None: return r
        best = None
        for a in args:
            if isinstance(a, T) and a.op == 'ite':
                v = a.args[0]
                if best is None or rank(v) < rank(best): best = v
        if best is None:
            _tick()
            r = fn(*args)
        elif best.op == 'tb':
            lo = []; hi = []
            for a in args:
                if isinstance(a, T) and a.op == 'ite' and a.args[0] is best:
                    lo.append(a.args[2][0]); hi.append(a.args[2][1])
                else:
                    lo.append(a); hi.append(a)
            r = _node(best, (), (rec(tuple(lo)), rec(tuple(hi))))
        else:
            cuts = set()
            for a in args:
                if isinstance(a, T) and a.op == 'ite' and a.args[0] is best: cuts.update(a.args[1])
            cuts = sorted(cuts)
            kids = []
            for i in range(len(cuts) + 1):
                sub = []
                for a in args:
                    if isinstance(a, T) and a.op == 'ite' and a.args[0] is best: sub.append(_region(a, cuts, i))
                    else: sub.append(a)
                kids.append(rec(tuple(sub)))
            r = _node(best, cuts, tuple(kids))
        cache[args] = r
        return r
    return rec(tuple(args))

def _region(a, cuts, i):
    # region i of the merged cuts lies between cuts[i-1] and cuts[i]
    j = 0
    ac = a.args[1]
    if i > 0:
        lowcut = cuts[i - 1]
        while j < len(ac) and ac[j] <= lowcut: j += 1
    return a.args[2][j]

def _node(v, cuts, kids):
    """build a node whose kids may contain smaller-ranked tests (fn can introduce them)"""
    ok = True
    rv = rank(v)
    for k in kids:
        if isinstance(k, T) and k.op == 'ite' and not (rv < rank(k.args[0])): ok = False
    if ok: return mk_ite(v, cuts, kids)
    # re-order: ite with test on v applied to kids
    conds = []
    if v.op == 'tb':
        c = mk('ite', v, (), (FALSE, TRUE))
        return ite(c, kids[1], kids[0])
    r = kids[0]
    for cu, k in zip(cuts, kids[1:]):
        c = mk('ite', v, (cu,), (FALSE, TRUE))
        r = ite(c, k, r)
    return r

def _mix(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    return mk('opq', 'badcond', c, a, b)

_itememo = {}
RECFIELDS = {}     # class -> ordered tuple of field names, set by the interpreter
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op != 'ite':
        return mk('opq', 'cond', c, a, b)
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None: return r
    if a.op == 'rec' and b.op == 'rec' and a.args[0] == b.args[0]:
        r = mkrec(a.args[0], [(f, ite(c, x, y)) for (f, x), (_, y) in zip(a.args[1], b.args[1])])
    elif a.op == 'rec' and a.args[0] in RECFIELDS and b.op != 'rec' and not _ptrish(b):
        cls = a.args[0]
        r = mkrec(cls, [(f, ite(c, x, fld(f, ty, b))) for (f, x), (_, ty) in zip(a.args[1], RECFIELDS[cls])])
    elif b.op == 'rec' and b.args[0] in RECFIELDS and a.op != 'rec' and not _ptrish(a):
        cls = b.args[0]
        r = mkrec(cls, [(f, ite(c, fld(f, ty, a), y)) for (f, y), (_, ty) in zip(b.args[1], RECFIELDS[cls])])
    else:
        r = expand(_mix, (c, a, b))
    _itememo[k] = r
    return r

def _ptrish(t):
    return t.op in ('null', 'ptr', 'undef', 'exc', 'void', 'opq')

def land(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    return ite(a, b, FALSE)
def lor(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    return ite(a, TRUE, b)
def lnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    return ite(a, FALSE, TRUE)

def batom(a):
    """boolean atom -> DD"""
    if a.op in ('ite', 'true', 'false'): return a
    return mk('ite', mk('tb', a), (), (FALSE, TRUE))

def _regions_bool(L, isint, cuts, vals):
    lo, hi = _linear_range(L)
    v = mk('tr', L, isint)
    # drop cuts that the known range decides
    nc = []; nk = [vals[0]]
    for c, k in zip(cuts, vals[1:]):
        t, s = c
        # cut at (t,0): below means L<t ; (t,1): below means L<=t
        if lo is not None and (lo >= t if s == 0 else lo > t):
            nk = [k]; nc = []
            continue
        if hi is not None and (hi < t if s == 0 else hi <= t):
            break
        nc.append(c); nk.append(k)
    if len(nk) == 1: return nk[0]
    return mk_ite(v, nc, nk)

def sgn_test(p, isint, below, at, above):
    """bool/any leaf selected by the sign of poly p"""
    if is_const(p):
        c = cval(p)
        return below if c < 0 else (at if c == 0 else above)
    if isint:
        for m, c in p.args[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('first', 'last') and abs(c) == 1:
                a = m[0][0]
                d = _padd(num(a), pneg(a.args[2]))
                if c < 0: d = pneg(d)
                if p is d:
                    # position searched for compared with "not found" (the end of the range)
                    q = mk('any', a.args[0], a.args[1], a.args[2], a.args[3])
                    return ite(batom(q), below if c > 0 else above, at)
                d2 = pscale(_padd(p, pneg(d)), Fraction(1))
                if is_const(d2):
                    # p = +-(first - hi) + const: decided by the range when the constant is on the far side
                    k0 = cval(d2)
                    if c > 0 and k0 < 0: return below
                    if c < 0 and k0 > 0: return above
    L, t, s = _pnorm_form(p)
    if s < 0: below, above = above, below
    if isint and all(c.denominator == 1 for m, c in L.args[0]):
        if t.denominator == 1:
            return _regions_bool(L, True, [(t, 0), (t + 1, 0)], [below, at, above])
        f = Fraction(t.numerator // t.denominator + 1)
        return _regions_bool(L, True, [(f, 0)], [below, above])
    # a product of factors with known sign is not split further
    return _regions_bool(L, False, [(t, 0), (t, 1)], [below, at, above])

def _lt(a, b, isint): return sgn_test(_padd(a, pneg(b)), isint, TRUE, FALSE, FALSE)
def _le(a, b, isint): return sgn_test(_padd(a, pneg(b)), isint, TRUE, TRUE, FALSE)
def _eqn(a, b, isint): return sgn_test(_padd(a, pneg(b)), isint, FALSE, TRUE, FALSE)

def chk2(f):
    def g(a, b, *r):
        if a.op != 'poly' or b.op != 'poly':
            return mk('opq', 'nonnum:' + f.__name__, a, b)
        return f(a, b, *r)
    return g

def add(a, b):
    if a.op == 'poly' and b.op == 'poly': return _padd(a, b)
    return expand(chk2(_padd), (a, b))
def sub(a, b): return add(a, neg(b))
def neg(a):
    if a.op == 'poly': return pneg(a)
    return expand(lambda x: pneg(x) if x.op == 'poly' else mk('opq', 'neg', x), (a,))
def mul(a, b):
    if a.op == 'poly' and b.op == 'poly': return _pmul(a, b)
    return expand(chk2(_pmul), (a, b))
def div(a, b):
    return expand(chk2(lambda x, y: _pmul(x, pinv(y))), (a, b))
def _boolnum(f):
    def g(a, b):
        if a.op == 'poly' and b.op == 'poly': return f(a, b)
        return batom(mk('opq', 'cmp', a, b))
    return g
def lt(a, b, isint): return expand(_boolnum(lambda x, y: _lt(x, y, isint)), (a, b))
def le(a, b, isint): return expand(_boolnum(lambda x, y: _le(x, y, isint)), (a, b))
def eqn(a, b, isint): return expand(_boolnum(lambda x, y: _eqn(x, y, isint)), (a, b))

def lift(name_or_fn, *args):
    """build an uninterpreted pure term with DD arguments lifted"""
    return expand(name_or_fn, args)

def napp(op, *args):
    """numeric uninterpreted application"""
    return expand(lambda *a: num(mk(op, *a)), tuple(pull(a) for a in args))
def bapp(op, *args):
    return expand(lambda *a: batom(mk(op, *a)), tuple(pull(a) for a in args))
def app(op, *args):
    return expand(lambda *a: mk(op, *a), tuple(pull(a) for a in args))

def fabs(a): return expand(lambda x: mkabs(x) if x.op == 'poly' else num(mk('opq', 'abs', x)), (a,))
def sqrt(a):
    def f(x):
        if x.op != 'poly': return num(mk('opq', 'sqrt', x))
        if is_const(x):
            c = cval(x)
            if c >= 0:
                import math
                n = math.isqrt(c.numerator); d = math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator: return const(Fraction(n, d))
        # pull square content
        if len(x.args[0]) >= 1:
            from math import gcd
            den = 1
            for m, c in x.args[0]: den = den * c.denominator // gcd(den, c.denominator)
            g = 0
            for m, c in x.args[0]: g = gcd(g, abs(int(c * den)))
            import math
            q = Fraction(g, den)
            n = math.isqrt(q.numerator); d = math.isqrt(q.denominator)
            if q != 1 and n * n == q.numerator and d * d == q.denominator and q > 0:
                return pscale(num(mk('sqrt', pscale(x, 1 / q))), Fraction(n, d))
        return num(mk('sqrt', x))
    return expand(f, (a,))

def mx(a, b):
    d = sub(a, b)
    return expand(lambda x, y: _padd(pscale(_padd(x, y), Fraction(1, 2)), pscale(mkabs(_padd(x, pneg(y))), Fraction(1, 2)))
                  if x.op == 'poly' and y.op == 'poly' else num(mk('opq', 'max', x, y)), (a, b))
def mn(a, b): return neg(mx(neg(a), neg(b)))

def idiv(a, b):
    def f(x, y):
        if x.op != 'poly' or y.op != 'poly': return num(mk('opq', 'idiv', x, y))
        if is_const(y) and cval(y) != 0:
            c = cval(y)
            if is_const(x):
                v = abs(cval(x)) // abs(c)
                return const(v if (cval(x) >= 0) == (c > 0) else -v)
            if all((cc / c).denominator == 1 for m, cc in x.args[0]): return pscale(x, 1 / c)
        if x is y: return ONE
        return num(mk('idiv', x, y))
    return expand(f, (a, b))

def _modconst(x, y):
    """(k*y + c) % y with a small constant c: by the value of y"""
    if is_const(y): return None
    lead = [(m, c) for m, c in y.args[0] if m != ()]
    if len(lead) != 1 or lead[0][1] != 1: return None
    m0 = lead[0][0]
    k = Fraction(0)
    for m, c in x.args[0]:
        if m == m0: k = c
        elif m != (): return None
    if k.denominator != 1 or k < 0 or k > 2: return None
    e = _padd(x, pscale(y, -k))
    if not is_const(e): return None
    c = cval(e)
    if c.denominator != 1 or abs(c) > 3 or (k == 0 and c < 0): return None
    c = int(c)
    r = const(c) if c >= 0 else _padd(y, const(c))
    for v in range(c if c > 0 else -c - 1, 0, -1):
        w = int(k) * v + c
        val = const(abs(w) % v if w >= 0 else -(abs(w) % v))
        r = ite(_eqn(y, const(v), True), val, r)
    return r

def imod(a, b):
    def f(x, y):
        if x.op != 'poly' or y.op != 'poly': return num(mk('opq', 'imod', x, y))
        if is_const(x) and is_const(y) and cval(y) != 0:
            r = abs(cval(x)) % abs(cval(y))
            return const(r if cval(x) >= 0 else -r)
        for sh in (0, -1, 1):
            e = _padd(x, pscale(y, Fraction(sh)))
            # 0 <= e < y
            lo = _linear_range(e)[0]
            hi = _linear_range(_padd(e, pneg(y)))[1]
            if lo is not None and lo >= 0 and hi is not None and hi <= -1:
                return e
        for sh in (0, -1):
            # 0 <= e < 2y, e can wrap exactly once
            e = _padd(x, pscale(y, Fraction(sh)))
            lo = _linear_range(e)[0]
            y2 = _padd(e, pscale(y, Fraction(-1)))
            hi = _linear_range(y2)[1]
            if lo is not None and lo >= 0 and (hi is None or hi > 2):
                h2 = _linear_range(_padd(y2, pneg(y)))[1]
                if h2 is not None and h2 <= -1: hi = 2
            if lo is not None and lo >= 0 and hi is not None and hi <= 2:
                w = _padd(e, pneg(y))
                return sgn_test(w, True, e, w, w)
        r = _modconst(x, y)
        if r is not None: return r
        return num(mk('imod', x, y))
    return expand(f, (a, b))

# ------------------------------------------------------------------ records
FIELDTYPES = {}

def typed(ty, a):
    """wrap an atom according to its C++ type"""
    if ty == 'bool': return batom(a)
    if ty in NUMT or ty in ENUMT: return num(a)
    return a

NUMT = {'int', 'double', 'float', 'unsigned int', 'unsigned long', 'long', 'long long', 'unsigned long long', 'char', 'short',
        'unsigned char', 'signed char', 'unsigned short', 'long double'}
INTT = NUMT - {'double', 'float', 'long double'}
ENUMT = set()

def mkrec(cls, fields):
    fields = tuple(fields)
    # eta: a record all of whose fields are projections of one term is that term
    if cls in RECFIELDS and fields:
        base = None
        for (f, v), (_, ty) in zip(fields, RECFIELDS[cls]):
            b = _proj_of(f, v)
            if b is None or (base is not None and b is not base):
                base = None
                break
            base = b
        if base is not None: return base
    return mk('rec', cls, fields)

def _proj_of(f, v):
    if v.op == 'ite' and v.args[0].op == 'tb' and v.args[2] == (FALSE, TRUE): v = v.args[0].args[0]
    elif v.op == 'poly' and len(v.args[0]) == 1 and v.args[0][0][1] == 1:
        m = v.args[0][0][0]
        if len(m) == 1 and m[0][1] == 1: v = m[0][0]
    if v.op == 'fld' and v.args[0] == f: return v.args[1]
    return None

def fld(f, ty, t):
    if t.op == 'rec':
        for n, v in t.args[1]:
            if n == f: return v
        return mk('opq', 'nofield', f, t)
    if t.op == 'ite':
        return expand(lambda x: fld(f, ty, x), (t,))
    if t.op in ('undef', 'opq'):
        return typed(ty, mk('fld', f, t))
    return typed(ty, mk('fld', f, t))

def setfld(f, v, t, cls):
    if t.op == 'rec':
        return mkrec(t.args[0], [(n, v if n == f else x) for n, x in t.args[1]])
    if t.op == 'ite':
        raise TooBig('setfld on DD')
    if cls not in RECFIELDS:
        return mk('opq', 'setfld', f, v, t)
    return mkrec(cls, [(n, v if n == f else fld(n, ty, t)) for n, ty in RECFIELDS[cls]])

def pull(t):
    """records used as keys or elements: decision diagrams inside come out to the top"""
    if t.op != 'rec': return t
    fs_ = [f for f, v in t.args[1]]
    vs = tuple(pull(v) for f, v in t.args[1])
    if any(v.op == 'ite' for v in vs):
        cls = t.args[0]
        return expand(lambda *a: mkrec(cls, zip(fs_, a)), vs)
    if all(v is w for v, (f, w) in zip(vs, t.args[1])): return t
    return mkrec(t.args[0], zip(fs_, vs))

def symkey(a, b):
    """an unordered pair of integers (map key)"""
    return lift_ite(lambda x, y: mk('symkey', x, y) if x.key <= y.key else mk('symkey', y, x), a, b)

def symkeyeq(x, y):
    a, b = x.args; c, d = y.args
    return lor(land(eqn(a, c, True), eqn(b, d, True)), land(eqn(a, d, True), eqn(b, c, True)))

def keq(a, b):
    def f(x, y):
        if x is y: return TRUE
        if x.op == y.op == 'symkey': return symkeyeq(x, y)
        if x.key > y.key: x, y = y, x
        return batom(mk('keq', x, y))
    return lift_ite(f, a, b)

def lift_ite(fn, *args):
    return expand(fn, tuple(pull(a) if isinstance(a, T) else a for a in args))

# ------------------------------------------------------------------ sequences
NIL = mk('cat', ())
def lit(*els):
    if not els: return NIL
    return expand(lambda *a: mk('cat', (mk('lit', a),)), tuple(pull(e) for e in els))

def parts(s):
    if s.op == 'cat': return s.args[0]
    return (s,)

def _cat(*ss):
    out = []
    for s in ss:
        for p in parts(s):
            if p.op == 'lit' and out and out[-1].op == 'lit':
                out[-1] = mk('lit', out[-1].args[0] + p.args[0])
            elif p.op == 'slice' and out and out[-1].op == 'slice' and out[-1].args[0] is p.args[0] and out[-1].args[2] is p.args[1]:
                q = slice_(p.args[0], out[-1].args[1], p.args[2])
                out.pop()
                out.extend(parts(q))
            elif p.op == 'comp' and out and out[-1].op == 'comp' and out[-1].args[3] is p.args[3] and out[-1].args[0] == p.args[0] and out[-1].args[2] is p.args[1]:
                out[-1] = mk('comp', p.args[0], out[-1].args[1], p.args[2], p.args[3])
            elif p.op == 'uninit' and p.args[0] is ZERO:
                pass
            elif p.op == 'str' and out and out[-1].op == 'str':
                out[-1] = mk('str', out[-1].args[0] + p.args[0])
            elif p.op == 'str' and p.args[0] == '':
                pass
            else:
                out.append(p)
    if len(out) == 1 and out[0].op not in ('lit', 'comp', 'str', 'uninit', 'slice'): return out[0]
    return mk('cat', tuple(out))

def cat(*ss):
    return expand(_cat, tuple(ss))

def strlit(s): return mk('cat', (mk('str', s),)) if s != '' else NIL

def _len1(p):
    if p.op == 'lit': return const(len(p.args[0]))
    if p.op == 'str': return const(len(p.args[0]))
    if p.op == 'uninit': return p.args[0]
    if p.op == 'slice': return _padd(p.args[2], pneg(p.args[1]))
    if p.op in ('rev', 'sort', 'upd', 'hull'): return length(p.args[0])
    if p.op == 'erase1': return sub(length(p.args[0]), ONE)
    if p.op == 'comp':
        h, lo, hi, body = p.args
        n = body_len_const(body)
        if n is not None: return pscale(_padd(hi, pneg(lo)), Fraction(n))
        k = fresh(1 + p.lvl, lo, hi)
        b = subst(body, {BV(h): num(k)})
        return mksum(k, lo, hi, length(b))
    if p in LENOF: return LENOF[p]
    return num(mk('len', p))

# lengths of sequences a loop writes into without resizing them
LENOF = {}

def body_len_const(body):
    if body.op == 'ite':
        r = None
        for k in body.args[2]:
            n = body_len_const(k)
            if n is None or (r is not None and r != n): return None
            r = n
        return r
    n = 0
    for p in parts(body):
        if p.op == 'lit': n += len(p.args[0])
        elif p.op == 'str': n += len(p.args[0])
        else: return None
    return n

def length(s):
    def f(x):
        if x.op == 'cat':
            r = ZERO
            for p in x.args[0]: r = add(r, _len1(p))
            return r
        return _len1(x)
    return expand(f, (s,))

def sel(s, i, ty):
    return expand(lambda x, y: _sel(x, y, ty), (s, i))

def _sel(s, i, ty):
    if i.op != 'poly': return typed(ty, mk('opq', 'sel', s, i))
    if s.op == 'cat' and len(s.args[0]) != 1:
        off = ZERO
        ps = s.args[0]
        for n, p in enumerate(ps):
            ln = _len1(p)
            if ln.op != 'poly': break
            rel = _padd(i, pneg(off))
            lo = _linear_range(rel)[0]
            hi = _linear_range(_padd(rel, pneg(ln)))[1]
            if lo is not None and lo >= 0 and hi is not None and hi < 0:
                return _sel1(p, rel, ty)
            # certainly beyond this part?
            lo2 = _linear_range(_padd(rel, pneg(ln)))[0]
            if lo2 is not None and lo2 >= 0:
                off = _padd(off, ln)
                continue
            if n == len(ps) - 1: return _sel1(p, rel, ty) if lo is not None and lo >= 0 else typed(ty, mk('sel', s, i))
            # undecided: split
            below = _sel1(p, rel, ty)
            rest = _sel(mk('cat', ps[n + 1:]) if len(ps) - n - 1 != 1 or ps[n + 1].op in ('lit', 'comp', 'str', 'uninit', 'slice') else ps[n + 1], _padd(rel, pneg(ln)), ty)
            return ite(_lt(rel, ln, True), below, rest)
        return typed(ty, mk('sel', s, i))
    if s.op == 'cat': return _sel1(s.args[0][0], i, ty)
    return _sel1(s, i, ty)

def _sel1(p, i, ty):
    if p.op == 'lit':
        els = p.args[0]
        if is_const(i):
            c = cval(i)
            if 0 <= c < len(els): return els[int(c)]
            return typed(ty, mk('oob', i))
        r = els[-1]
        for n in range(len(els) - 2, -1, -1):
            r = ite(_eqn(i, const(n), True), els[n], r)
        return r
    if p.op == 'comp':
        h, lo, hi, body = p.args
        n = body_len_const(body)
        if n == 1:
            b = subst(body, {BV(h): _padd(lo, i)})
            return sel(b, ZERO, ty)
        if n and n > 1:
            q = _divn(i, n)
            if q is not None:
                b = subst(body, {BV(h): _padd(lo, q[0])})
                return sel(b, const(q[1]), ty)
        return typed(ty, mk('sel', mk('cat', (p,)), i))
    if p.op == 'rev':
        return sel(p.args[0], sub(sub(length(p.args[0]), ONE), i), ty)
    if p.op == 'slice':
        return sel(p.args[0], _padd(p.args[1], i), ty)
    if p.op == 'upd':
        return ite(_eqn(i, p.args[1], True), p.args[2], sel(p.args[0], i, ty))
    if p.op == 'erase1':
        return ite(_lt(i, p.args[1], True), sel(p.args[0], i, ty), sel(p.args[0], _padd(i, ONE), ty))
    if p.op == 'uninit':
        return typed(ty, mk('undef', 'uninit', i))
    if p.op == 'str':
        if is_const(i) and 0 <= cval(i) < len(p.args[0]): return const(ord(p.args[0][int(cval(i))]))
    return typed(ty, mk('sel', p, i))

def _divn(i, n):
    """i = n*q + r with integer-coefficient q"""
    c0 = pconst_part(i)
    r = c0 % n
    d = []
    for m, c in i.args[0]:
        if m == (): c = c - r
        if (c / n).denominator != 1: return None
        if c: d.append((m, c / n))
    if c0.denominator != 1: return None
    if c0 == 0 and r: return None
    return pmake(dict(d)), int(r)

def upd(s, i, v, old_ty=None):
    def f(s, i, v):
        if i.op != 'poly': return mk('opq', 'upd', s, i, v)
        if s.op == 'cat':
            off = ZERO
            ps = s.args[0]
            for n, p in enumerate(ps):
                ln = _len1(p)
                if ln.op != 'poly': break
                rel = _padd(i, pneg(off))
                lo = _linear_range(rel)[0]; hi = _linear_range(_padd(rel, pneg(ln)))[1]
                if lo is not None and lo >= 0 and hi is not None and hi < 0:
                    if p.op == 'lit' and is_const(rel):
                        e = list(p.args[0]); e[int(cval(rel))] = v
                        return _cat(*(list(ps[:n]) + [mk('cat', (mk('lit', tuple(e)),))] + list(ps[n + 1:])))
                    break
                lo2 = _linear_range(_padd(rel, pneg(ln)))[0]
                if lo2 is not None and lo2 >= 0:
                    off = _padd(off, ln); continue
                break
        if s.op == 'upd' and s.args[1] is i: return mk('upd', s.args[0], i, v)
        return mk('upd', s, i, v)
    return expand(f, (s, i, pull(v)))

def slice_(s, a, b):
    def f(s, a, b):
        if a is b: return NIL
        n = length(s)
        if a is ZERO and b is n: return s
        if s.op == 'slice': return f(s.args[0], _padd(s.args[1], a), _padd(s.args[1], b))
        if s.op == 'cat':
            ps = s.args[0]
            # drop / take whole parts and literal elements from both ends
            lo = a; i = 0
            ps = list(ps)
            while ps:
                ln = _len1(ps[0])
                if ln.op != 'poly': break
                if is_const(lo) and ps[0].op in ('lit', 'str') and cval(lo) > 0:
                    c = int(min(cval(lo), len(ps[0].args[0])))
                    rest = ps[0].args[0][c:]
                    lo = _padd(lo, const(-c)); b = _padd(b, const(-c))
                    if len(rest): ps[0] = mk(ps[0].op, rest)
                    else: ps.pop(0)
                    if lo is ZERO: break
                    continue
                if lo is not ZERO and lo is ln:
                    b = _padd(b, pneg(ln)); lo = ZERO; ps.pop(0); continue
                break
            if lo is ZERO:
                tot = ZERO
                for p in ps: tot = add(tot, _len1(p))
                while ps and tot.op == 'poly':
                    d = _padd(tot, pneg(b))
                    if d is ZERO: return _cat(*ps) if ps else NIL
                    p = ps[-1]
                    if is_const(d) and p.op in ('lit', 'str') and cval(d) > 0:
                        c = int(min(cval(d), len(p.args[0])))
                        rest = p.args[0][:len(p.args[0]) - c]
                        tot = _padd(tot, const(-c))
                        if len(rest): ps[-1] = mk(p.op, rest)
                        else: ps.pop()
                        continue
                    if p.op not in ('lit', 'str') and _len1(p) is d:
                        ps.pop(); tot = b; continue
                    break
                if not ps: return NIL
            if len(ps) == 1 and ps[0].op == 'comp' and body_len_const(ps[0].args[3]) == 1:
                h, l0, h0, body = ps[0].args
                return mk('cat', (mk('comp', h, _padd(l0, lo), _padd(l0, b), body),))
            s = _cat(*ps)
            a = lo
        return mk('cat', (mk('slice', s, a, b),))
    return expand(f, (s, a, b))

def pop_back(s): return slice_(s, ZERO, sub(length(s), ONE))

def rev(s):
    def f(s):
        if s.op == 'rev': return s.args[0]
        if s is NIL: return s
        if s.op == 'cat':
            if all(p.op == 'lit' for p in s.args[0]):
                return mk('cat', tuple(mk('lit', tuple(reversed(p.args[0]))) for p in reversed(s.args[0])))
            if len(s.args[0]) > 1:
                return _cat(*[f(mk('cat', (p,)) if p.op in ('lit', 'comp', 'str', 'uninit', 'slice') else p) for p in reversed(s.args[0])])
        return mk('rev', s)
    return expand(f, (s,))

def erase1(s, i):
    def f(s, i):
        n = length(s)
        if i is ZERO: return slice_(s, ONE, n)
        if i is sub(n, ONE): return slice_(s, ZERO, i)
        return mk('erase1', s, i)
    return expand(f, (s, i))

# ------------------------------------------------------------------ substitution
def subst(t, m):
    memo = {}
    keys = frozenset(m.keys())
    return _subst(t, m, keys, memo)

def _subst(t, m, keys, memo):
    if not (t.fs & keys): return t
    r = memo.get(t)
    if r is not None: return r
    r = _subst1(t, m, keys, memo)
    memo[t] = r
    return r

def _sargs(a, m, keys, memo):
    if isinstance(a, T): return _subst(a, m, keys, memo)
    if isinstance(a, tuple): return tuple(_sargs(x, m, keys, memo) for x in a)
    return a

def asbool(t):
    if t.op in ('true', 'false'): return t
    if t.op == 'ite':
        if _isbooldd(t): return t
        return expand(lambda x: x if x.op in ('true', 'false') else batom(x), (t,))
    return batom(t)

def asnum(t):
    if t.op == 'poly': return t
    if t.op == 'ite':
        if _isnumdd(t): return t
        return expand(lambda x: x if x.op == 'poly' else num(x), (t,))
    return num(t)

def _subst1(t, m, keys, memo):
    op = t.op
    if op in ('fs', 'bv', 'slot'):
        return m.get(t, t)
    S = lambda x: _subst(x, m, keys, memo)
    if op == 'poly':
        r = ZERO
        same = []
        for mo, c in t.args[0]:
            if not any(x.fs & keys for x, e in mo):
                same.append((mo, c)); continue
            p = const(c)
            for x, e in mo:
                y = S(x) if (x.fs & keys) else x
                y = asnum(y)
                if e == 1: p = mul(p, y)
                else: p = mul(p, expand(lambda z: ppow(z, e) if z.op == 'poly' else num(mk('opq', 'pow', z)), (y,)))
            r = add(r, p)
        return add(r, pmake(dict(same)))
    if op == 'ite':
        v = t.args[0]
        kids = [S(k) for k in t.args[2]]
        if not (v.fs & keys):
            return _node(v, t.args[1], tuple(kids))
        if v.op == 'tb':
            a = S(v.args[0])
            return ite(asbool(a), kids[1], kids[0])
        L = S(v.args[0])
        isint = v.args[1]
        r = kids[0]
        for (c, s), k in zip(t.args[1], kids[1:]):
            # region above this cut
            if s == 0: cond = lnot(lt(L, const(c), isint))
            else: cond = lnot(le(L, const(c), isint))
            r = ite(cond, k, r)
        return r
    if op in BINDERS:
        return _subst_binder(t, m, keys, memo)
    if op == 'rec':
        return mkrec(t.args[0], [(f, S(v)) for f, v in t.args[1]])
    if op == 'fld':
        v = S(t.args[1])
        ty = FIELDTYPES.get(t.args[0])
        r = fld(t.args[0], ty or '?', v)
        if ty is None and r.op == 'fld': return r
        return _unwrap(r)
    if op == 'lit':
        return lit(*[S(x) for x in t.args[0]])
    if op == 'cat':
        return cat(*[S(p) for p in t.args[0]])
    if op == 'sel':
        return _unwrap(sel(S(t.args[0]), S(t.args[1]), SELTY.get(t, '?')))
    if op == 'len':
        return _unwrap(length(S(t.args[0])))
    if op == 'upd':
        return upd(S(t.args[0]), S(t.args[1]), S(t.args[2]))
    if op == 'slice':
        return slice_(S(t.args[0]), S(t.args[1]), S(t.args[2]))
    if op == 'rev': return rev(S(t.args[0]))
    if op == 'erase1': return erase1(S(t.args[0]), S(t.args[1]))
    if op == 'abs': return _unwrap(fabs(S(t.args[0])))
    if op == 'sqrt': return _unwrap(sqrt(S(t.args[0])))
    if op == 'inv': return _unwrap(div(ONE, S(t.args[0])))
    if op == 'idiv': return _unwrap(idiv(S(t.args[0]), S(t.args[1])))
    if op == 'imod': return _unwrap(imod(S(t.args[0]), S(t.args[1])))
    if op == 'lout':
        lp, perm = canonloop(S(t.args[0]))
        return mk('lout', lp, perm[t.args[1]])
    if op in REBUILD:
        return _unwrap(REBUILD[op](*[_sargs(a, m, keys, memo) for a in t.args]))
    if op == 'tb' or op == 'tr':
        raise AssertionError
    na = tuple(_sargs(a, m, keys, memo) for a in t.args)
    # generic: lift decision diagrams out of direct T arguments
    if any(isinstance(a, T) and a.op == 'ite' for a in na) and op not in NOLIFT:
        return expand(lambda *a: _reatom(op, a), na)
    return mk(op, *na)

def bitac(op):
    import operator
    fn = {'bit^': operator.xor, 'bit&': operator.and_, 'bit|': operator.or_}[op]
    def f(*xs):
        flat = []; cst = None
        for x in xs:
            if x.op == 'poly' and len(x.args[0]) == 1 and x.args[0][0][1] == 1 and len(x.args[0][0][0]) == 1 and x.args[0][0][0][0][1] == 1 and x.args[0][0][0][0][0].op == op:
                flat += list(x.args[0][0][0][0][0].args)
            else: flat.append(x)
        out = []
        for x in flat:
            if x.op == 'poly' and is_const(x) and cval(x).denominator == 1:
                cst = int(cval(x)) if cst is None else fn(cst, int(cval(x)))
            elif op == 'bit^' and x in out: out.remove(x)
            elif op != 'bit^' and x in out: pass
            else: out.append(x)
        out.sort(key=lambda t: t.key)
        if cst is not None and (cst != 0 or op == 'bit&' or not out): out = [const(cst)] + out
        if len(out) == 1: return out[0]
        if not out: return ZERO
        return num(mk(op, *out))
    return lambda *xs: expand(f, xs)

NOLIFT = {'exc'}
REBUILD = {o: bitac(o) for o in ('bit^', 'bit&', 'bit|')}
REBUILD['symkey'] = symkey
REBUILD['keq'] = keq
SELTY = {}

def _reatom(op, a):
    r = mk(op, *a)
    k = KIND.get(op)
    if k == 'n': return num(r)
    if k == 'b': return batom(r)
    return r
KIND = {}

def _unwrap(r):
    """constructors return wrapped values (poly / DD); atoms inside atoms are stored bare"""
    return r

_canonloop = {}
def canonloop(loop):
    """the loop with its slots in an order that depends on what they hold only (equal ones merged), and where each went"""
    r = _canonloop.get(loop)
    if r is not None: return r
    h, N, C, inits, nxt, kinds = loop.args
    n = len(inits)
    slots = [SLOT(h, i, kinds[i]) for i in range(n)]
    col = [hashlib.md5(kinds[i].encode() + inits[i].key).hexdigest() for i in range(n)]
    ncls = len(set(col)); rounds = 0; col0 = col
    while ncls < n:
        m = {slots[i]: SLOT(99998, col[i], kinds[i]) for i in range(n)}
        ck = subst(C, m).key
        new = [hashlib.md5(col[i].encode() + subst(nxt[i], m).key + ck + N.key).hexdigest() for i in range(n)]
        n2 = len(set(new)); rounds += 1
        stable = n2 == ncls
        ncls = n2; col = new
        if stable and rounds >= 2 or rounds > 12: break
    col = [a + b for a, b in zip(col0, col)]
    reps = sorted(set(col)); idx = {c: i for i, c in enumerate(reps)}
    perm = tuple(idx[c] for c in col)
    if perm != tuple(range(n)):
        m = {slots[i]: SLOT(h, perm[i], kinds[i]) for i in range(n)}
        first = [col.index(c) for c in reps]
        out = mk('loop', h, N, subst(C, m), tuple(inits[i] for i in first), tuple(subst(nxt[i], m) for i in first), tuple(kinds[i] for i in first))
        _canonloop[out] = (out, tuple(range(len(reps))))
    else: out = loop
    r = _canonloop[loop] = (out, perm)
    return r

def _subst_binder(t, m, keys, memo):
    op = t.op
    h = t.args[0]
    if op == 'loop':
        return mk(op, h, *[_sargs(a, m, keys, memo) for a in t.args[1:]])
    lo = _sargs(t.args[1], m, keys, memo); hi = _sargs(t.args[2], m, keys, memo)
    lvl = t.lvl
    for k, v in m.items():
        if k in t.fs and v.lvl < 10**6: lvl = max(lvl, v.lvl)
    if lvl >= 10**6: lvl = max([x.lvl for x in t.fs if x.lvl < 10**6] + [0])
    if op == 'fn':
        # closed function of two placeholders: no capture possible
        ks = [fresh(lvl + 1) for _ in range(2)]
        raise TooBig('subst under fn')
    k = fresh(lvl + 1, lo if lo.op == 'poly' else None, hi)
    mm = dict(m); mm[BV(h)] = num(k)
    body = subst(t.args[3], mm)
    return {'sum': mksum, 'any': mkany, 'first': mkfirst, 'last': mklast, 'comp': mkcomp, 'maxov': mkmaxov, 'parity': mkparity}[op](k, lo, hi, body)

# ------------------------------------------------------------------ binders
def height(*ts):
    h = 0
    for t in ts: h = max(h, t.h)
    return h + 1

def close(k, body):
    h = height(body)
    return h, subst(body, {k: num(BV(h)) if True else None})

def _linear_in(p, k):
    """p = c*k + rest with rest free of k -> (c, rest) else None"""
    c = Fraction(0); rest = []
    for m, q in p.args[0]:
        if m == ((k, 1),): c = q
        elif any(k in x.fs for x, e in m): return None
        else: rest.append((m, q))
    return c, mk('poly', tuple(rest))

def split_domain(k, lo, hi, body):
    """body is a DD: if its top test is linear in k and cuts the domain at a constant distance of an
    end, returns the list of (lo, hi, body) pieces in order and the length that this takes for granted (0: any);
    None when not applicable"""
    r = _split_domain(k, lo, hi, body)
    if r is None: return None
    out, need = r
    if need:
        low = _linear_range(_padd(hi, pneg(lo)))[0]
        if low is not None and low >= need: need = 0
    return out, need

def _guarded(n, need, small, big):
    """big() when n >= need, otherwise the case with exactly m = 0 .. need-1 elements"""
    r = big()
    for m in range(need - 1, -1, -1): r = ite(_lt(n, const(m + 1), True), small(m), r)
    return r

def _split_domain(k, lo, hi, body):
    if body.op != 'ite': return None
    v = body.args[0]
    if v.op != 'tr' or not v.args[1]: return _split_inner(k, lo, hi, body)
    lin = _linear_in(v.args[0], k)
    if lin is None or abs(lin[0]) != 1: return _split_inner(k, lo, hi, body)
    c, rest = lin
    cuts = list(body.args[1]); kids = list(body.args[2])
    if c > 0:
        pos = [_padd(const(q[0]), pneg(rest)) for q in cuts]          # k >= pos : above
    else:
        # -k + rest >= t  <=>  k <= rest - t ; above region is low k
        pos = [_padd(_padd(rest, const(-q[0])), ONE) for q in reversed(cuts)]
        kids = list(reversed(kids))
    cur = lo
    out = []; near = far = 0
    for p, b in zip(pos + [None], kids):
        end = hi if p is None else p
        if p is not None:
            d1 = _padd(p, pneg(lo)); d2 = _padd(hi, pneg(p))
            if is_const(d1):
                if cval(d1) <= 0: continue
                if cval(d1) > 4: return None
                near = max(near, int(cval(d1)))
            elif is_const(d2):
                if cval(d2) <= 0: end = hi
                elif cval(d2) > 4: return None
                else: far = max(far, int(cval(d2)))
            else:
                a = _linear_range(d1)[0]; bb = _linear_range(d2)[0]
                if a is None or bb is None or a < 0 or bb < 0: return None
        out.append((cur, end, b))
        cur = end
        if end is hi: break
    return out, near + far

def _split_inner(k, lo, hi, body):
    """a test of k below the top of the diagram that cuts the range: split there"""
    seen = set(); cand = []
    def go(t, d):
        if t.op != 'ite' or id(t) in seen or len(seen) > 400: return
        seen.add(id(t))
        v = t.args[0]
        if v.op == 'tr' and v.args[1] and k in v.fs:
            lin = _linear_in(v.args[0], k)
            if lin is not None and abs(lin[0]) == 1:
                c, rest = lin
                for q in t.args[1]:
                    p = _padd(const(q[0]), pneg(rest)) if c > 0 else _padd(_padd(rest, const(-q[0])), ONE)
                    if q[1] and c > 0: p = _padd(p, ONE)
                    elif q[1]: p = _padd(p, pneg(ONE))
                    cand.append(p)
        for x in t.args[2]: go(x, d + 1)
    go(body, 0)
    for p in cand:
        d1 = _padd(p, pneg(lo)); d2 = _padd(hi, pneg(p))
        a = _linear_range(d1)[0]; b = _linear_range(d2)[0]
        if a is None or b is None or a < 0 or b < 0: continue
        if d1 is ZERO or d2 is ZERO: continue
        if not (is_const(d1) or is_const(d2)): continue
        out = []
        for x, y in ((lo, p), (p, hi)):
            kk = fresh(k.lvl, x, y)
            bb = subst(body, {k: num(kk)})
            out.append((x, y, subst(bb, {kk: num(k)})))
        if any(o[2] is body for o in out): continue
        return out, 0
    return None

def _fuse(f, comb, unit, k, lo, hi, body):
    """iteration by position over a filtered sequence: iterate over what the filter ranges over"""
    hit = []
    memo = set()
    def go(t):
        if isinstance(t, tuple):
            for x in t: go(x)
            return
        if not isinstance(t, T) or k not in t.fs or id(t) in memo: return
        memo.add(id(t))
        if t.op == 'sel' and k not in t.args[0].fs:
            s = t.args[0]
            if s.op == 'cat' and len(s.args[0]) == 1 and s.args[0][0].op == 'comp' and t not in hit: hit.append(t)
        for x in t.args: go(x)
    go(body)
    if not hit: return None
    t = hit[0]
    C = t.args[0].args[0][0]
    if t.args[1].op != 'poly': return None
    lin = _linear_in(t.args[1], k)
    if lin is None or lin[0] != 1 or _padd(lin[1], lo) is not ZERO: return None
    if body_len_const(C.args[3]) is not None: return None
    if sub(_len1(C), sub(hi, lo)) is not ZERO: return None
    h, l, u, B = C.args
    j = fresh(1 + max(C.lvl, body.lvl), l, u)
    Bj = subst(B, {BV(h): num(j)})
    probe = mk('fuse$')
    if k in replace_atom(body, t, probe).fs: return None
    def leaf(x):
        r = unit
        for p in parts(x):
            if p.op == 'lit':
                for e in p.args[0]: r = comb(r, replace_atom(body, t, _unbare(e)))
            elif p.op == 'comp':
                hh, l2, u2, B2 = p.args
                n = fresh(1 + p.lvl, ZERO, _len1(p))
                nb = replace_atom(body, t, _bareif(sel(mk('cat', (p,)), num(n), '?')))
                r = comb(r, f(n, ZERO, _len1(p), nb))
            else: raise _NoFuse()
        return r
    try: nb = expand(leaf, (Bj,))
    except _NoFuse: return None
    return f(j, l, u, nb)

class _NoFuse(Exception): pass
def _unbare(e): return e
def _bareif(e): return e

def _lift_bounds(f):
    def g(k, lo, hi, body):
        if lo.op == 'ite' or hi.op == 'ite':
            return expand(lambda a, b: g(k, a, b, body), (lo, hi))
        if lo.op != 'poly' or hi.op != 'poly':
            return mk('opq', 'bounds', lo, hi)
        return f(k, lo, hi, body)
    return g

def _hoist(f, k, lo, hi, body):
    """top test independent of k: distribute"""
    v = body.args[0]
    kids = tuple(f(k, lo, hi, b) for b in body.args[2])
    return _node(v, body.args[1], kids)

def inst(k, body, p): return subst(body, {k: p})

@_lift_bounds
def mksum(k, lo, hi, body):
    n = _padd(hi, pneg(lo))
    if is_const(n) and cval(n) <= 8:
        r = ZERO
        for i in range(int(cval(n))): r = add(r, inst(k, body, _padd(lo, const(i))))
        return r
    if body.op == 'ite':
        if k not in body.args[0].fs: return _hoist(mksum, k, lo, hi, body)
        sp = split_domain(k, lo, hi, body)
        if sp is not None:
            def big():
                r = ZERO
                for a, b, bd in sp[0]: r = add(r, mksum(k, a, b, bd))
                return r
            def small(m):
                r = ZERO
                for i in range(m): r = add(r, inst(k, body, _padd(lo, const(i))))
                return r
            return _guarded(n, sp[1], small, big)
        if not _isnumdd(body): return num(mk('opq', 'sum', body))
        fz = _fuse(mksum, add, ZERO, k, lo, hi, body)
        if fz is not None: return fz
        kk = fresh(k.lvl, lo, hi)
        body = subst(body, {k: num(kk)})
        h, cb = close(kk, body)
        return num(mk('sum', h, lo, hi, cb))
    if body.op != 'poly': return num(mk('opq', 'sum', body))
    fz = _fuse(mksum, add, ZERO, k, lo, hi, body)
    if fz is not None: return fz
    r = ZERO
    for m, c in body.args[0]:
        dep = tuple((x, e) for x, e in m if k in x.fs)
        ind = tuple((x, e) for x, e in m if k not in x.fs)
        coef = mk('poly', ((ind, c),)) if True else None
        if not dep:
            r = _padd(r, _pmul(coef, n))
        else:
            r = add(r, mul(coef, _sum_mono(k, lo, hi, dep)))
    return r

def _isnumdd(t):
    if t.op == 'ite': return all(_isnumdd(x) for x in t.args[2])
    return t.op == 'poly'

def _koffs(t, k, acc):
    """collect (coef, const) of every polynomial occurrence of k inside t; False when irregular"""
    if k not in t.fs: return True
    if t.op == 'poly':
        lin = _linear_in(t, k)
        if lin is not None:
            acc.add((lin[0], pconst_part(lin[1])) if _offs_ok(lin[1]) else (lin[0], pconst_part(lin[1])))
            return True
        ok = True
        for m, c in t.args[0]:
            for x, e in m:
                if x is k: ok = False
                else: ok = ok and _koffs(x, k, acc)
        return ok
    if t is k:
        return False
    ok = True
    for a in _subs(t.args):
        ok = ok and _koffs(a, k, acc)
    return ok
def _offs_ok(p): return True

def _sum_mono(k, lo, hi, dep):
    body = mk('poly', ((dep, Fraction(1)),))
    acc = set()
    ok = all(_koffs(x, k, acc) for x, e in dep)
    corr = ZERO
    if ok and acc:
        coefs = {c for c, o in acc}
        if coefs == {Fraction(-1)}:
            # reverse the index
            s = _padd(_padd(lo, hi), const(-1))
            body = subst(body, {k: _padd(s, pneg(num(k)))})
            if body.op != 'poly' or len(body.args[0]) != 1: return mksum(k, lo, hi, body)
            acc = set()
            for x, e in body.args[0][0][0]: _koffs(x, k, acc)
            coefs = {c for c, o in acc}
        if coefs == {Fraction(1)}:
            mino = min(o for c, o in acc)
            if mino != 0 and mino.denominator == 1:
                body = subst(body, {k: _padd(num(k), const(-mino))})
                lo = _padd(lo, const(mino)); hi = _padd(hi, const(mino))
                if body.op != 'poly' or len(body.args[0]) != 1: return mksum(k, lo, hi, body)
    # constant offsets of the domain become corner terms
    c1 = pconst_part(lo); c2 = pconst_part(hi)
    if 0 < abs(c1) <= 6 and c1.denominator == 1:
        base = _padd(lo, const(-c1))
        if c1 > 0:
            for i in range(int(c1)): corr = sub(corr, inst(k, body, _padd(base, const(i))))
        else:
            for i in range(int(-c1)): corr = add(corr, inst(k, body, _padd(lo, const(i))))
        lo = base
    if 0 < abs(c2) <= 6 and c2.denominator == 1:
        base = _padd(hi, const(-c2))
        if c2 > 0:
            for i in range(int(c2)): corr = add(corr, inst(k, body, _padd(base, const(i))))
        else:
            for i in range(int(-c2)): corr = sub(corr, inst(k, body, _padd(hi, const(i))))
        hi = base
    if lo is hi: return corr
    kk = fresh(k.lvl)
    h, cb = close(kk, subst(body, {k: num(kk)}))
    return add(corr, num(mk('sum', h, lo, hi, cb)))

def _isbooldd(t):
    if t.op == 'ite': return all(_isbooldd(x) for x in t.args[2])
    return t.op in ('true', 'false')

@_lift_bounds
def mkany(k, lo, hi, body):
    n = _padd(hi, pneg(lo))
    if body is FALSE: return FALSE
    if is_const(n) and cval(n) <= 8:
        r = FALSE
        for i in range(int(cval(n))): r = lor(r, inst(k, body, _padd(lo, const(i))))
        return r
    if body is TRUE: return lnot(_lt(n, ONE, True))
    if not _isbooldd(body): return batom(mk('opq', 'any', body))
    if k not in body.args[0].fs: return _hoist(mkany, k, lo, hi, body)
    sp = split_domain(k, lo, hi, body)
    if sp is not None:
        def big():
            r = FALSE
            for a, b, bd in sp[0]: r = lor(r, mkany(k, a, b, bd))
            return r
        def small(m):
            r = FALSE
            for i in range(m): r = lor(r, inst(k, body, _padd(lo, const(i))))
            return r
        return _guarded(n, sp[1], small, big)
    fz = _fuse(mkany, lor, FALSE, k, lo, hi, body)
    if fz is not None: return fz
    kk = fresh(k.lvl)
    h, cb = close(kk, subst(body, {k: num(kk)}))
    return batom(mk('any', h, lo, hi, cb))

@_lift_bounds
def mkparity(k, lo, hi, body):
    if body is FALSE: return FALSE
    n = _padd(hi, pneg(lo))
    if is_const(n) and cval(n) <= 8:
        r = FALSE
        for i in range(int(cval(n))):
            b = inst(k, body, _padd(lo, const(i)))
            r = ite(r, lnot(b), b)
        return r
    if not _isbooldd(body) or body is TRUE: return batom(mk('opq', 'parity', body, n))
    kk = fresh(k.lvl)
    h, cb = close(kk, subst(body, {k: num(kk)}))
    return batom(mk('parity', h, lo, hi, cb))

def _mkfl(op):
    @_lift_bounds
    def g(k, lo, hi, body):
        if body is TRUE: return lo if op == 'first' else _padd(hi, const(-1))
        if body is FALSE: return hi
        if not _isbooldd(body): return num(mk('opq', op, body))
        if k not in body.args[0].fs: return _hoist(g, k, lo, hi, body)
        sp = split_domain(k, lo, hi, body)
        n = _padd(hi, pneg(lo))
        if sp is not None:
            def big():
                r = hi
                for a, b, bd in (sp[0] if op == 'last' else reversed(sp[0])): r = ite(mkany(k, a, b, bd), g(k, a, b, bd), r)
                return r
            def small(m):
                r = hi
                for i in (reversed(range(m)) if op == 'first' else range(m)): r = ite(inst(k, body, _padd(lo, const(i))), _padd(lo, const(i)), r)
                return r
            return _guarded(n, sp[1], small, big)
        if is_const(n) and cval(n) <= 8:
            r = hi
            js = list(range(int(cval(n))))
            for i in (reversed(js) if op == 'first' else js): r = ite(inst(k, body, _padd(lo, const(i))), _padd(lo, const(i)), r)
            return r
        kk = fresh(k.lvl)
        h, cb = close(kk, subst(body, {k: num(kk)}))
        return num(mk(op, h, lo, hi, cb))
    return g
mkfirst = _mkfl('first')
mklast = _mkfl('last')

@_lift_bounds
def mkmaxov(k, lo, hi, body):
    if body.op == 'ite' and k not in body.args[0].fs: return _hoist(mkmaxov, k, lo, hi, body)
    if not _isnumdd(body): return num(mk('opq', 'maxov', body))
    if k not in body.fs: return body
    if body.op == 'ite':
        sp = split_domain(k, lo, hi, body)
        if sp is not None and len(sp[0]) > 1 and sp[1] <= 1:
            r = None
            for a, b, bd in sp[0]:
                x = mkmaxov(k, a, b, bd)
                r = x if r is None else mx(r, x)
            return r
    n = _padd(hi, pneg(lo))
    if is_const(n) and 0 < cval(n) <= 8:
        r = None
        for i in range(int(cval(n))):
            x = inst(k, body, _padd(lo, const(i)))
            r = x if r is None else mx(r, x)
        return r
    kk = fresh(k.lvl)
    h, cb = close(kk, subst(body, {k: num(kk)}))
    return num(mk('maxov', h, lo, hi, cb))

@_lift_bounds
def mkcomp(k, lo, hi, body):
    n = _padd(hi, pneg(lo))
    if body is NIL: return NIL
    if is_const(n) and cval(n) <= 8:
        r = NIL
        for i in range(int(cval(n))): r = cat(r, inst(k, body, _padd(lo, const(i))))
        return r
    if body.op == 'ite':
        if k not in body.args[0].fs: return _hoist(mkcomp, k, lo, hi, body)
        sp = split_domain(k, lo, hi, body)
        if sp is not None:
            def big():
                r = NIL
                for a, b, bd in sp[0]: r = cat(r, mkcomp(k, a, b, bd))
                return r
            def small(m):
                r = NIL
                for i in range(m): r = cat(r, inst(k, body, _padd(lo, const(i))))
                return r
            return _guarded(n, sp[1], small, big)
    fz = _fuse(mkcomp, cat, NIL, k, lo, hi, body)
    if fz is not None: return fz
    # identity: [ sel(s, k) ] over a range of s
    if body.op == 'cat' and len(body.args[0]) == 1 and body.args[0][0].op == 'lit' and len(body.args[0][0].args[0]) == 1:
        e = body.args[0][0].args[0][0]
        a = _bare(e)
        if a is not None and a.op == 'sel' and k not in a.args[0].fs:
            lin = _linear_in(a.args[1], k) if a.args[1].op == 'poly' else None
            if lin is not None and lin[0] == 1:
                return slice_(a.args[0], _padd(lo, lin[1]), _padd(hi, lin[1]))
            if lin is not None and lin[0] == -1:
                # descending copy
                s = slice_(a.args[0], _padd(_padd(lin[1], pneg(hi)), ONE), _padd(_padd(lin[1], pneg(lo)), ONE))
                return rev(s)
    # normalise the start to a zero constant when every occurrence of k is regular
    c1 = pconst_part(lo)
    if c1 != 0 and c1.denominator == 1:
        body = subst(body, {k: _padd(num(k), const(c1))})
        lo = _padd(lo, const(-c1)); hi = _padd(hi, const(-c1))
        RANGE_tmp = None
    kk = fresh(k.lvl)
    h, cb = close(kk, subst(body, {k: num(kk)}))
    return mk('cat', (mk('comp', h, lo, hi, cb),))

def _bare(e):
    if e.op == 'poly':
        if len(e.args[0]) == 1 and e.args[0][0][1] == 1 and len(e.args[0][0][0]) == 1 and e.args[0][0][0][0][1] == 1:
            return e.args[0][0][0][0][0]
        return None
    if e.op == 'ite':
        if e.args[0].op == 'tb' and e.args[2] == (FALSE, TRUE): return e.args[0].args[0]
        return None
    return e

# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14: return '…'
    op = t.op
    if op == 'poly':
        if not t.args[0]: return '0'
        out = []
        for m, c in t.args[0]:
            ms = '*'.join(show(x, d + 1) + ('' if e == 1 else '^%d' % e) for x, e in m)
            if not ms: out.append(str(c))
            elif c == 1: out.append(ms)
            elif c == -1: out.append('-' + ms)
            else: out.append('%s*%s' % (c, ms))
        s = ' + '.join(out)
        return s if len(out) == 1 else '(' + s + ')'
    if op == 'ite':
        v = t.args[0]
        if v.op == 'tb':
            if t.args[2] == (FALSE, TRUE): return show(v.args[0], d + 1)
            if t.args[2] == (TRUE, FALSE): return '!' + show(v.args[0], d + 1)
            return 'if{%s ? %s : %s}' % (show(v.args[0], d + 1), show(t.args[2][1], d + 1), show(t.args[2][0], d + 1))
        s = 'case{%s' % show(v.args[0], d + 1)
        kids = t.args[2]
        prev = None
        for i, kx in enumerate(kids):
            if i < len(t.args[1]):
                c, e = t.args[1][i]
                s += ' | %s%s: %s' % ('<' if e == 0 else '<=', c, show(kx, d + 1))
            else: s += ' | else: %s' % show(kx, d + 1)
        return s + '}'
    if op == 'sym': return str(t.args[0])
    if op == 'fs': return '%s%d' % (t.args[1], t.args[0])
    if op == 'bv': return 'i%d' % t.args[0]
    if op == 'slot': return '$%s' % (t.args[1],)
    if op == 'fld': return '%s.%s' % (show(t.args[1], d + 1), t.args[0].split('::')[-1])
    if op == 'sel': return '%s[%s]' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if op == 'len': return '|%s|' % show(t.args[0], d + 1)
    if op == 'lit': return '[' + ', '.join(show(x, d + 1) for x in t.args[0]) + ']'
    if op == 'str': return repr(t.args[0])
    if op == 'cat':
        if not t.args[0]: return '[]'
        return ' ++ '.join(show(x, d + 1) for x in t.args[0])
    if op == 'rec': return t.args[0].split('::')[-1] + '{' + ', '.join('%s=%s' % (f.split('::')[-1], show(v, d + 1)) for f, v in t.args[1]) + '}'
    if op in ('sum', 'any', 'first', 'last', 'comp', 'maxov', 'parity'):
        return '%s(i%d in %s..%s: %s)' % (op, t.args[0], show(t.args[1], d + 1), show(t.args[2], d + 1), show(t.args[3], d + 1))
    if not t.args: return op
    return op + '(' + ', '.join(show(a, d + 1) for a in t.args) + ')'

# ------------------------------------------------------------------ small sizes
def _raw_replace(t, a, z, memo):
    if isinstance(t, tuple): return tuple(_raw_replace(x, a, z, memo) for x in t)
    if not isinstance(t, T) or t.op in ('fs', 'bv', 'slot'): return t
    if t is a: return z
    r = memo.get(t)
    if r is None:
        na = tuple(_raw_replace(x, a, z, memo) for x in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) else mk(t.op, *na)
        memo[t] = r
    return r

def replace_atom(t, a, v):
    """t with the atom a (a length, say) replaced by the value v, renormalised"""
    z = fresh(0, tag='z')
    r = _raw_replace(t, a, z, {})
    return t if r is t else subst(r, {z: v})

def specialise(t, memo=None):
    """where a test bounds a length to at most three values, treat each value by itself: tests that
    contradict it disappear"""
    if memo is None: memo = {}
    if t.op != 'ite': return t
    r = memo.get(t)
    if r is not None: return r
    v = t.args[0]
    kids = list(t.args[2])
    if v.op == 'tr' and v.args[1] and len(v.args[0].args[0]) == 1:
        m, c = v.args[0].args[0][0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len' and c == 1:
            A = m[0][0]
            cuts = [q[0] for q in t.args[1]]
            ncuts = []; nk = []
            lo = 0
            for i, k in enumerate(kids):
                hi = cuts[i] if i < len(cuts) else None
                if hi is not None and hi - lo <= 3 and hi > lo:
                    for x in range(int(lo), int(hi)):
                        nk.append(specialise(replace_atom(k, A, const(x)), memo)); ncuts.append((Fraction(x + 1), 0))
                else:
                    nk.append(specialise(k, memo))
                    if hi is not None: ncuts.append((Fraction(hi), 0))
                if hi is not None: lo = hi
            r = _node(v, ncuts, tuple(nk))
            memo[t] = r
            return r
    r = _node(v, t.args[1], tuple(specialise(k, memo) for k in kids))
    memo[t] = r
    return r
