"""Meaning of the standard-library, Clipper and Triangle operations used by the library, as value-graph terms."""
from terms import *
import terms as tm

def _m(f):
    f._method = True
    return f

def _I():
    import interp
    return interp

def litv(s): return strlit(s)
FALSEREC = None

def mstrip(t):
    return _I().strip(t)

def realargs(e):
    return [x for x in e['a'] if 'std::allocator' not in x['t'].split('<')[0] and not mstrip(x['t']).startswith('std::allocator<')]

def vit(c, i): return mkrec('$vit', [('$vit::c', c), ('$vit::i', i)])
def vc(v): return fld('$vit::c', '$ptr', v)
def vi(v): return fld('$vit::i', 'long', v)

# ------------------------------------------------------------------ helpers on the interpreter
@_m
def stdloc(I, e, ob):
    if e.get('arrow'): return I.rv(ob)
    return I.lv(ob)

@_m
def stdpair(I, pt, a, b):
    I.fields(pt)
    return mkrec(pt, [('pair::first', a), ('pair::second', b)])

def IN_targs0(ct):
    a = _I().targs(ct)
    return a[0] if a else '?'

def mvty(ct):
    a = _I().targs(ct)
    return a[1] if len(a) > 1 else '?'

@_m
def stdeq(I, t, a, b):
    """a == b for two values of type t"""
    IN = _I()
    if IN.isnum(t): return eqn(a, b, IN.isint(t))
    if t == 'bool': return ite(a, b, lnot(b))
    if IN.isptr(t): return I.ptrcmp(a, b)
    if IN.isseqty(t):
        return I.stdseqeq(a, b)
    if IN.ispair(t):
        r = TRUE
        for f, ty in I.fields(t): r = land(r, I.stdeq(ty, fld(f, ty, a), fld(f, ty, b)))
        return r
    for c in I.prog.bases(t):
        for f in I.prog.byname.get(c + '::operator==', []):
            this = I.loc(I.newbase(t, a)); o = I.loc(I.newbase(t, b))
            return I.callfn(f, this, [], vals=[o])
    return I.bappsym('eq', a, b)

@_m
def stdseqeq(I, a, b):
    def f(x, y):
        if x is y: return TRUE
        if x is NIL or y is NIL:
            return eqn(length(x if y is NIL else y), ZERO, True)
        if x.op == 'cat' and y.op == 'cat' and len(x.args[0]) == 1 and len(y.args[0]) == 1:
            p, q = x.args[0][0], y.args[0][0]
            if p.op == 'str' and q.op == 'str': return B(p.args[0] == q.args[0])
        if x.key > y.key: x, y = y, x
        return batom(mk('seqeq', x, y))
    return expand(f, (a, b))

@_m
def stdlt(I, t, a, b):
    IN = _I()
    if IN.isnum(t): return lt(a, b, IN.isint(t))
    if IN.isseqty(t): return expand(lambda x, y: FALSE if x is y else batom(mk('seqlt', x, y)), (a, b))
    for c in I.prog.bases(t):
        for f in I.prog.byname.get(c + '::operator<', []):
            this = I.loc(I.newbase(t, a)); o = I.loc(I.newbase(t, b))
            return I.callfn(f, this, [], vals=[o])
    return I.bappsym('lt', a, b)

def _cmpterm(I, t, fe=None):
    a = I.symval(t, mk('sym', '$c0:' + t)); b = I.symval(t, mk('sym', '$c1:' + t))
    if fe is None: return I.stdlt(t, a, b)
    la = I.loc(I.newbase(t, a)); lb = I.loc(I.newbase(t, b))
    return I.stdapply(fe, [(la, t), (lb, t)])

@_m
def stdapply(I, fe, locs, fv=None):
    """apply the callable expression fe to locations"""
    t = mstrip(fe['t'])
    v = fv if fv is not None else I.rv(fe)
    if v.op == 'closure':
        c = I.closures[v.args[0]]
        fn = I.prog.funcs.get(c.m)
        if fn is None: raise _I().Unsupported('lambda body')
        return I.callfn(fn, c.this, [], env=c.env, vals=_vals(I, fn, locs))
    if v.op == 'fref':
        fn = I.prog.funcs.get(v.args[0])
        if fn is None: raise _I().Unsupported('function pointer ' + str(v.args[1]))
        return I.callfn(fn, None, [], vals=_vals(I, fn, locs))
    for c in I.prog.bases(t):
        for fn in I.prog.byname.get(c + '::operator()', []):
            this = I.loc(I.newbase(t, v))
            return I.callfn(fn, this, [], vals=_vals(I, fn, locs))
    if t.startswith('std::less<'): return I.stdlt(locs[0][1], I.read(*locs[0]), I.read(*locs[1]))
    raise _I().Unsupported('callable ' + t)

def _vals(I, fn, locs):
    out = []
    for p, (l, t) in zip(fn['params'], locs):
        if p.get('ref'): out.append(l)
        else:
            v = I.read(l, t)
            out.append(I.conv(v, t, mstrip(p['t'])) if _I().isnum(t) else v)
    return out

@_m
def stdeach(I, c, lo, hi, ety, body):
    """for every element of c[lo..hi): body(location)"""
    idx = I.loc(I.newbase('int', lo))
    def cond(): return lt(I.read(idx, 'int'), hi, True)
    def bd(): body(I.index(c, I.read(idx, 'int'), ety), I.read(idx, 'int'))
    def inc(): I.write(idx, add(I.read(idx, 'int'), ONE), 'int')
    I.loop({}, cond, bd, inc)

def bappsym(I, op, a, b):
    return tm.lift_ite(lambda x, y: TRUE if x is y else batom(mk(op, x, y)), a, b)

# ------------------------------------------------------------------ constructors
@_m
def stdctor(I, ct, e):
    IN = _I()
    a = realargs(e)
    n = e['f']['n']
    if IN.isstr(ct):
        if not a: return NIL
        v = I.rv(a[0])
        if len(a) == 1: return v
        if len(a) == 2 and IN.isint(mstrip(a[0]['t'])):
            k = fresh(I.looplevel + 1, ZERO, v if v.op == 'poly' else None)
            return mkcomp(k, ZERO, v, lit(I.rv(a[1])))
        if len(a) == 2 and IN.isvit(mstrip(a[0]['t'])): return I.stdrange(v, I.rv(a[1]))
        return mk('opq', 'string', v)
    if IN.isvec(ct):
        if not a: return NIL
        t0 = mstrip(a[0]['t'])
        if t0.startswith('std::initializer_list<') or t0.endswith(']'): return I.rv(a[0])
        if IN.isvit(t0):
            return I.stdrange(I.rv(a[0]), I.rv(a[1]))
        if '_Rb_tree' in t0 or '_Node_' in t0:
            x = I.rv(a[0])
            return I.entries(I.read(x.args[0]))
        if IN.isint(t0):
            nn = I.rv(a[0])
            v = I.rv(a[1]) if len(a) > 1 else I.zeroel(IN.elty(ct))
            k = fresh(I.looplevel + 1, ZERO, nn if nn.op == 'poly' else None)
            return mkcomp(k, ZERO, nn, lit(v))
        if t0 == ct: return I.rv(a[0])
        return mk('opq', 'vector', ct)
    if IN.ismap(ct) or IN.isset(ct):
        if not a: return mk('mempty')
        t0 = mstrip(a[0]['t'])
        if t0 == ct: return I.rv(a[0])
        return mk('mempty') if IN.isint(t0) else mk('opq', 'map', ct)
    if IN.ispair(ct):
        fs = I.fields(ct)
        if len(a) == 2: return mkrec(ct, [(f, I.conv(I.rv(x), mstrip(x['t']), ty) if IN.isnum(ty) else I.stdconv(I.rv(x), mstrip(x['t']), ty)) for (f, ty), x in zip(fs, a)])
        if len(a) == 1:
            v = I.rv(a[0])
            return I.stdpairconv(v, mstrip(a[0]['t']), ct)
        return I.default(ct)
    if IN.isvit(ct):
        if a: return I.rv(a[0])
        return mk('undef', 'iter')
    if ct.startswith('std::_Rb_tree') or ct.startswith('std::__detail::_Node'):
        return I.rv(a[0]) if a else mk('undef', 'iter')
    if ct.startswith('std::basic_ofstream'):
        if not a: return I.mkstream(NIL)
        return I.mkstream(I.rv(a[0]), TRUE)
    if 'stringstream' in ct or 'ostringstream' in ct:
        s = I.mkstream(NIL)
        if a and not IN.isint(mstrip(a[0]['t'])): s = setfld('$s::buf', I.rv(a[0]), s, '$ostream')
        return s
    if ct.startswith('std::basic_ifstream'):
        if not a: return I.default(ct)
        if mstrip(a[0]['t']) == ct: return I.rv(a[0])
        p = I.rv(a[0])
        return mkrec('$istream', [('$i::path', p), ('$i::pos', ZERO), ('$i::open', TRUE), ('$i::ok', bapp('fexists', p))])
    if ct.startswith('std::basic_regex'):
        if mstrip(a[0]['t']) == ct: return I.rv(a[0])
        return app('regex', I.rv(a[0]))
    if ct.startswith('std::regex_token_iterator'):
        if not a: return mkrec('$tokit', [('$t::seq', NIL), ('$t::i', ZERO)])
        if mstrip(a[0]['t']) == ct: return I.rv(a[0])
        s = I.stdrange(I.rv(a[0]), I.rv(a[1]))
        rx = I.rv(a[2])
        sub = I.rv(a[3]) if len(a) > 3 else ZERO
        return mkrec('$tokit', [('$t::seq', app('tokens', s, rx, sub)), ('$t::i', ZERO)])
    if ct in ('ClipperLib::IntPoint',):
        fs = I.fields(ct)
        if a and mstrip(a[0]['t']) == ct: return I.rv(a[0])
        vs = [I.rv(x) for x in a]
        return mkrec(ct, [(f, vs[i] if i < len(vs) else ZERO) for i, (f, t) in enumerate(fs)])
    if ct == 'ClipperLib::Clipper': return I.default(ct)
    if ct == 'triangulateio': return I.default(ct)
    if ct.startswith('std::uniform_') or ct.startswith('std::normal_distribution') or ct.startswith('std::bernoulli'):
        if a and mstrip(a[0]['t']) == ct: return I.rv(a[0])
        return app('dist', litv(ct), *[pull(I.rv(x)) for x in a])
    if ct.startswith('std::mersenne') or ct.startswith('std::linear_cong') or ct.startswith('std::random_device'):
        if a and mstrip(a[0]['t']) == ct: return I.rv(a[0])
        if ct.startswith('std::random_device'): return mk('rdev')
        return app('engine', litv(ct), *[pull(I.rv(x)) for x in a])
    if ct in ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::length_error', 'std::domain_error'):
        v = I.rv(a[0]) if a else NIL
        return mk('excv', ct)
    if ct.startswith('std::initializer_list'): return I.rv(a[0])
    if IN.isset(ct): return mk('mempty')
    if ct.startswith('std::_Setprecision'): return I.rv(a[0])
    if not a: return I.default(ct)
    if ct.startswith('std::basic_istringstream'): pass
    I.unknown['ctor ' + ct] = 1
    return mk('opq', 'ctor', ct, tuple(pull(I.rv(x)) for x in a))

@_m
def stdconv(I, v, f, t):
    IN = _I()
    if f == t: return v
    if IN.ispair(f) and IN.ispair(t): return I.stdpairconv(v, f, t)
    if IN.isnum(f) and (IN.isnum(t) or t == 'bool') or f == 'bool': return I.conv(v, f, t)
    return v

@_m
def stdpairconv(I, v, f, t):
    IN = _I()
    if f == t or not IN.ispair(f): return v
    out = []
    for (fn, ft), (tn, tt) in zip(I.fields(f), I.fields(t)):
        out.append((tn, I.stdconv(fld(fn, ft, v), mstrip(ft), mstrip(tt))))
    return mkrec(t, out)

@_m
def stdrange(I, b, e):
    """sequence between two iterators"""
    c = vc(b)
    s = I.read(c, '$seq')
    if s.op == 'ite' and c.op == 'ite':
        return expand(lambda cc, i, j: slice_(I.read(cc, '$seq'), i, j), (c, vi(b), vi(e)))
    return slice_(s, vi(b), vi(e))

def zeroel(I, t):
    """value-initialised element"""
    dc = I.prog.defctor(t)
    if dc is not None:
        p = I.loc(I.newbase(t, I.default(t)))
        I.callfn(dc, p, [], ctor=True)
        return I.read(p, t)
    if t in I.prog.records:
        p = I.loc(I.newbase(t, I.default(t)))
        I.implicit_default(p, t)
        return I.read(p, t)
    return I.zero(t)

# ------------------------------------------------------------------ members
@_m
def stdm(I, n, e, ob, a):
    IN = _I()
    m = n.rsplit('::', 1)[1]
    ct = mstrip(ob['t'])
    if e.get('arrow') and ct.endswith('*'): ct = mstrip(ct[:-1])
    p = I.stdloc(e, ob)
    rref = e['f'].get('rref')
    if IN.isvec(ct) or IN.isstr(ct) or ct.startswith('std::initializer_list') or IN.isarr(ct) or ct.startswith('std::deque') or ct.startswith('std::list'):
        return I.stdseq(m, e, p, ct, a, rref)
    if IN.ismap(ct) or IN.isset(ct): return I.stdmap(m, e, p, ct, a, rref)
    if 'stream' in ct or 'basic_ios' in ct or 'ios_base' in ct: return I.stdstream(m, e, p, ct, a, rref)
    if ct.startswith('std::sub_match'):
        v = I.read(p, '$seq')
        if m in ('str',) or m.startswith('operator basic_string') or m.startswith('operator'): return v
        if m == 'length': return length(v)
    if ct.startswith('ClipperLib::Clipper'):
        return I.stdclip(m, e, p, a)
    if m == 'what': return mk('opq', 'what')
    if m == 'operator bool' and 'ClipperLib' not in n: pass
    if IN.isvit(ct): return I.stdvitop(m, e, p, a)
    if ct.startswith('std::uniform_') and m in ('a', 'min'): return napp('distmin', I.read(p))
    if ct.startswith('std::uniform_') and m in ('b', 'max'): return napp('distmax', I.read(p))
    if ct.startswith('std::uniform_') and m == 'reset': return IN.VOID
    if ct.startswith('std::mersenne') and m == 'seed':
        I.write(p, app('engine', litv(ct), *[pull(I.rv(x)) for x in a])); return IN.VOID
    raise IN.Unsupported('std member ' + n)

@_m
def stdvitop(I, m, e, p, a):
    raise _I().Unsupported('iterator ' + m)

@_m
def stdseq(I, m, e, p, ct, a, rref):
    IN = _I()
    ety = IN.elty(ct)
    RD = lambda: I.read(p, ct)
    if m in ('size', 'length'): return length(RD())
    if m == 'empty': return eqn(length(RD()), ZERO, True)
    if m in ('begin', 'cbegin'): return vit(p, ZERO)
    if m in ('end', 'cend'): return vit(p, length(RD()))
    if m in ('push_back', 'emplace_back'):
        if m == 'emplace_back' and not (len(a) == 1 and mstrip(a[0]['t']) == ety):
            v = I.stdemplace(ety, a)
        else: v = I.argval(a[0], ety)
        s = RD()
        I.write(p, cat(s, lit(v)), ct)
        return I.index(p, length(s), ety) if rref else IN.VOID
    if m == 'pop_back':
        I.write(p, pop_back(RD()), ct); return IN.VOID
    if m == 'clear':
        I.write(p, NIL, ct); return IN.VOID
    if m in ('front', 'back'):
        i = ZERO if m == 'front' else sub(length(RD()), ONE)
        return I.index(p, i, ety) if rref else I.read(I.index(p, i, ety), ety)
    if m in ('at', 'operator[]'):
        i = I.rv(a[0])
        if m == 'at':
            bad = lnot(land(le(ZERO, i, True), lt(i, length(RD()), True)))
            I.throw(bad, 'std::out_of_range')
        return I.index(p, i, ety)
    if m == 'reserve' or m == 'shrink_to_fit':
        for x in a: I.rv(x)
        return IN.VOID
    if m == 'c_str' or m == 'data': return RD() if IN.isstr(ct) else I.index(p, ZERO, ety)
    if m == 'assign':
        if len(a) == 2 and IN.isvit(mstrip(a[0]['t'])):
            b = I.rv(a[0]); en = I.rv(a[1])
            I.write(p, I.stdrange(b, en), ct); return p if rref else IN.VOID
        if len(a) == 2 and IN.isint(mstrip(a[0]['t'])):
            nn = I.rv(a[0]); v = I.argval(a[1], ety)
            k = fresh(I.looplevel + 1, ZERO, nn if nn.op == 'poly' else None)
            I.write(p, mkcomp(k, ZERO, nn, lit(v)), ct); return p if rref else IN.VOID
        if len(a) == 1:
            I.write(p, I.rv(a[0]), ct); return p if rref else IN.VOID
    if m == 'resize':
        nn = I.rv(a[0])
        s = RD()
        v = I.argval(a[1], ety) if len(a) > 1 else zeroel(I, ety)
        def f(s, nn):
            if s is NIL:
                k = fresh(I.looplevel + 1, ZERO, nn)
                return mkcomp(k, ZERO, nn, lit(v))
            d = tm._padd(nn, tm.pneg(length(s))) if length(s).op == 'poly' else None
            return mk('resize', s, nn, v)
        I.write(p, expand(f, (s, nn)), ct); return IN.VOID
    if m == 'insert':
        pos = I.rv(a[0])
        s = RD(); i = vi(pos); ln = length(s)
        if len(a) == 2:
            t1 = mstrip(a[1]['t'])
            ins = I.rv(a[1]) if t1.startswith('std::initializer_list') else lit(I.argval(a[1], ety))
        elif len(a) == 3 and IN.isvit(mstrip(a[1]['t'])): ins = I.stdrange(I.rv(a[1]), I.rv(a[2]))
        else:
            raise IN.Unsupported('vector::insert')
        I.write(p, cat(slice_(s, ZERO, i), ins, slice_(s, i, ln)), ct)
        return vit(p, i)
    if m == 'erase':
        if IN.isstr(ct): raise IN.Unsupported('string::erase')
        pos = I.rv(a[0])
        s = RD(); i = vi(pos)
        if len(a) == 1: I.write(p, tm.erase1(s, i), ct)
        else:
            j = vi(I.rv(a[1]))
            I.write(p, cat(slice_(s, ZERO, i), slice_(s, j, length(s))), ct)
        return vit(p, i)
    if m == 'swap':
        q = I.lv(a[0]); x = RD(); y = I.read(q, ct)
        I.write(p, y, ct); I.write(q, x, ct); return IN.VOID
    if m == 'operator=':
        I.write(p, I.rv(a[0]), ct); return p
    if m in ('append',) and len(a) == 1:
        I.write(p, cat(RD(), I.rv(a[0])), ct); return p
    if m == 'operator+=':
        v = I.rv(a[0])
        if IN.isnum(mstrip(a[0]['t'])): v = lit(v)
        I.write(p, cat(RD(), v), ct); return p
    raise IN.Unsupported('sequence member ' + m)

@_m
def stdemplace(I, ety, a):
    IN = _I()
    vs = [I.rv(x) for x in a]
    if ety in I.prog.records:
        cands = [f for f in I.prog.ctors(ety) if len(f['params']) == len(a) and not f.get('copyctor')]
        if len(cands) == 1 or cands:
            fn = None
            for f in cands:
                if all(mstrip(p['t']) == mstrip(x['t']) for p, x in zip(f['params'], a)): fn = f
            fn = fn or cands[0]
            p = I.loc(I.newbase(ety, I.default(ety)))
            vals = []
            for q, x, v in zip(fn['params'], a, vs):
                vals.append(I.conv(v, mstrip(x['t']), mstrip(q['t'])) if IN.isnum(mstrip(q['t'])) else v)
            I.callfn(fn, p, [], ctor=True, vals=vals)
            return I.read(p, ety)
    if IN.ispair(ety):
        return mkrec(ety, [(f, I.stdconv(v, mstrip(x['t']), ty)) for (f, ty), v, x in zip(I.fields(ety), vs, a)])
    if IN.isnum(ety) and len(vs) == 1: return I.conv(vs[0], mstrip(a[0]['t']), ety)
    if len(vs) == 1: return vs[0]
    raise IN.Unsupported('emplace ' + ety)

def argval(I, x, t):
    v = I.rv(x)
    IN = _I()
    xt = mstrip(x['t'])
    if xt != t:
        if IN.isnum(t) and IN.isnum(xt): return I.conv(v, xt, t)
        if IN.ispair(t) and IN.ispair(xt): return I.stdpairconv(v, xt, t)
        if t in I.prog.records and xt in I.prog.records and v.op != 'ite': return I.project(v, t)
    return v

_symeq = {}
def symmetric(I, kt):
    """the two integer fields whose unordered pair is all that operator== of the key type looks at, or None"""
    k = (id(I.prog), kt)
    if k in _symeq: return _symeq[k]
    _symeq[k] = None
    IN = _I()
    fs = I.fields(kt)
    fn = (I.prog.byname.get(kt + '::operator==') or [None])[0]
    if not fs or fn is None or fn.get('body') is None or len(fn['params']) != 1: return None
    J = IN.Interp(I.prog, {}); J.ctx = IN.Ctx(fn, None)
    v, w = J.symval(kt, mk('sym', '$k0')), J.symval(kt, mk('sym', '$k1'))
    l0 = J.loc(J.newbase(kt, v)); l1 = J.loc(J.newbase(kt, w))
    try: r = J.callfn(fn, l0, [], vals=[l1 if fn['params'][0].get('ref') else w])
    except Exception: return None
    ints = [(f, mstrip(t)) for f, t in fs if IN.isint(mstrip(t))]
    for a in range(len(ints)):
        for b in range(a + 1, len(ints)):
            (f, t), (g, u) = ints[a], ints[b]
            E = lambda p, q: eqn(fld(*p, v), fld(*q, w), True)
            A, B_ = (f, t), (g, u)
            if r is lor(land(E(A, A), E(B_, B_)), land(E(A, B_), E(B_, A))): _symeq[k] = (A, B_); return _symeq[k]
    return None

def canonkey(I, k, kt):
    """keys whose equality is that of unordered pairs are represented by the pair"""
    if kt not in I.prog.records: return k
    s = symmetric(I, kt)
    if s is None: return k
    return tm.lift_ite(lambda x: x if x.op == 'symkey' else tm.symkey(fld(s[0][0], s[0][1], x), fld(s[1][0], s[1][1], x)), k)

@_m
def stdmap(I, m, e, p, ct, a, rref):
    IN = _I()
    RD = lambda: I.read(p, ct)
    ta = IN.targs(ct)
    if IN.isset(ct): raise IN.Unsupported('set member ' + m)
    kt, vt = ta[0], ta[1]
    I.keyint = kt not in ('double', 'float')
    if m == 'size': return I.msize(RD())
    if m == 'empty': return eqn(I.msize(RD()), ZERO, True)
    if m == 'clear':
        I.write(p, mk('mempty'), ct); return IN.VOID
    if m in ('find', 'lower_bound', 'upper_bound'):
        k = pull(canonkey(I, I.argval(a[0], kt), kt))
        kind = {'find': 'find', 'lower_bound': 'lb', 'upper_bound': 'ub'}[m]
        return tm.lift_ite(lambda kk, pp: mk('mit', pp, kind, kk, ct), k, p)
    if m in ('end', 'cend'): return mk('mit', p, 'end', ZERO, ct)
    if m in ('begin', 'cbegin'): return mk('mit', p, 'begin', ZERO, ct)
    if m == 'count': return ite(I.contains(RD(), canonkey(I, I.argval(a[0], kt), kt)), ONE, ZERO)
    if m in ('insert', 'emplace'):
        hint = False
        b = a
        if len(a) == 2 and m == 'insert' and ('iterator' in a[0]['t']):
            hint = True; b = a[1:]
            I.rv(a[0])
        if m == 'emplace': k = I.argval(b[0], kt); v = I.argval(b[1], vt)
        else:
            t = mstrip(b[0]['t'])
            if t.startswith('std::initializer_list') : raise IN.Unsupported('map::insert list')
            pv = I.rv(b[0])
            fs = I.fields(t)
            k = I.stdconv(fld('pair::first', fs[0][1], pv), mstrip(fs[0][1]), kt)
            v = I.stdconv(fld('pair::second', fs[1][1], pv), mstrip(fs[1][1]), vt)
        k = pull(canonkey(I, k, kt))
        mm = RD()
        has = I.contains(mm, k)
        I.write(p, ite(has, mm, I.mput(mm, k, v)), ct)
        it = tm.lift_ite(lambda kk: mk('mit', p, 'find', kk, ct), k)
        if hint: return it
        rt = mstrip(e['f']['rt'])
        I.fields(rt)
        return mk('rec', rt, (('pair::first', it), ('pair::second', lnot(has))))
    if m == 'operator[]':
        k = pull(canonkey(I, I.argval(a[0], kt), kt))
        return I.stdmapidx(p, k, ct, vt)
    if m == 'at':
        k = pull(canonkey(I, I.argval(a[0], kt), kt))
        I.throw(lnot(I.contains(RD(), k)), 'std::out_of_range')
        return I.mloc(p, k, vt)
    if m == 'erase':
        t = mstrip(a[0]['t'])
        k = I.rv(a[0])
        if 'iterator' in t:
            def f(it):
                if it.op == 'mit' and it.args[1] == 'find': return it.args[2]
                return mk('opq', 'eraseit', it)
            k = expand(f, (k,))
        else: k = canonkey(I, k, kt)
        mm = RD()
        I.write(p, tm.lift_ite(lambda x, y: mk('mempty') if x.op == 'mempty' else (x.args[0] if x.op == 'mput' and x.args[1] is y and x.args[0].op == 'mempty' else mk('mdel', x, y)), mm, k), ct)
        return ite(I.contains(mm, k), ONE, ZERO) if IN.isint(mstrip(e['f']['rt'])) else mk('opq', 'eraseret')
    if m == 'operator=':
        I.write(p, I.rv(a[0]), ct); return p
    raise IN.Unsupported('map member ' + m)

@_m
def stdmapidx(I, p, k, ct, vt):
    mm = I.read(p, ct)
    has = I.contains(mm, k)
    if has is not TRUE:
        I.write(p, ite(has, mm, I.mput(mm, k, zeroel(I, vt))), ct)
    return I.mloc(p, k, vt)

def mloc(I, p, k, vt):
    return tm.lift_ite(lambda pp, kk: mk('ptr', pp.args[0], pp.args[1] + (('m', kk, vt),)) if pp.op == 'ptr' else mk('ptr', ('D', pp), (('m', kk, vt),)), p, k)

def mitfield(I, it, f, ty):
    """location of a field of the pair designated by a map iterator"""
    p, kind, k, ct = it.args
    I.keyint = IN_targs0(ct) not in ('double', 'float')
    if f == 'pair::second' and kind in ('find', 'ubprev', 'lb'):
        return I.mloc(p, k, mvty(ct))
    if f == 'pair::first' and kind == 'find':
        b = I.newbase(ty, k)
        return I.loc(b)
    if f == 'pair::first' and kind in ('ubprev', 'lb'):
        # the greatest key not above k (the least not below k): k itself when present, else strictly less (greater)
        m = I.read(p, ct)
        away = keyaway(I, kind, m, k, ty)
        return ite(I.contains(m, k), I.loc(I.newbase(ty, k)), I.loc(I.newbase(ty, away)))
    return I.loc(I.newbase(ty, I.symval(ty, mk('opq', 'mitfield', kind, f, I.read(p), k))))

def keyaway(I, kind, m, k, ty):
    IN = _I()
    if IN.isnum(mstrip(ty)):
        gap = tm.num(mk('ulong', mk('keygap', kind, m, k)))
        return sub(sub(k, ONE), gap) if kind == 'ubprev' else add(add(k, ONE), gap)
    return mk('keyaway', kind, m, k)

def keyorder(I, this, other):
    """operator< between a neighbouring key and the key it was looked up by -> term or None"""
    def away(v, w): return v.op == 'keyaway' and v.args[2] is w
    def rd(p):
        if p.op != 'ptr' or p.args[1]: return None
        return I.S.store.get(p.args[0])
    a, b = rd(this), rd(other)
    if a is None: 
        try: a = I.read(this)
        except Exception: return None
    if b is None:
        try: b = I.read(other)
        except Exception: return None
    if away(a, b): return B(a.args[0] == 'ubprev')
    if away(b, a): return B(b.args[0] == 'lb')
    return None

def miteq(I, x, y):
    """equality of two map iterators"""
    if x is y: return TRUE
    px, kx, ax, ct = x.args; py, ky, ay, _ = y.args
    I.keyint = IN_targs0(ct) not in ('double', 'float')
    if kx == 'end' and ky != 'end': return miteq(I, y, x)
    if ky == 'end':
        if kx == 'find': return lnot(I.contains(I.read(px, ct), ax))
        if kx == 'begin': return eqn(I.msize(I.read(px, ct)), ZERO, True)
        if kx == 'lb':
            m = I.read(px, ct)
            return land(lnot(I.contains(m, ax)), tm.lift_ite(lambda mm, kk: TRUE if mm.op == 'mempty' else batom(mk('allless', mm, kk)), m, ax))
    if kx == 'begin' and ky == 'ub': return miteq(I, y, x)
    if kx == 'ub' and ky == 'begin':
        # no key <= k : in particular k is absent
        m = I.read(px, ct)
        return land(lnot(I.contains(m, ax)), tm.lift_ite(lambda mm, kk: TRUE if mm.op == 'mempty' else batom(mk('allgreater', mm, kk)), m, ax))
    if x.args[1] == y.args[1] == 'find' and px is py: return I.keq(ax, ay)
    return batom(mk('opq', 'miteq', x, y))

# ------------------------------------------------------------------ streams
def fmt(I, v, t, st):
    IN = _I()
    if IN.isseqty(t) or t == '$seq' or t in ('char *', 'const char *') or t.endswith('char *'): return v
    if t == 'char' or t == 'unsigned char':
        if v.op == 'poly' and is_const(v): return strlit(chr(int(cval(v))))
        return lit(v)
    if t == 'bool': return ite(v, strlit('1'), strlit('0'))
    if IN.isint(t):
        def f(x):
            if x.op == 'poly' and is_const(x): return strlit(str(int(cval(x))))
            return mk('cat', (mk('fmti', x),))
        return expand(f, (v,))
    if IN.isnum(t):
        def g(x, fx, pr):
            return mk('cat', (mk('fmtd', x, fx, pr),))
        fx = fld('$s::fixed', 'bool', st)
        pr = fld('$s::prec', 'int', st)
        return expand(g, (v, ite(fx, ONE, ZERO), pr))
    return mk('opq', 'fmt', t, v)

def _strmrg(x):
    return x

@_m
def stdout_(I, p, x):
    """stream << expression"""
    IN = _I()
    t = mstrip(x['t'])
    st = I.read(p, '$ostream')
    if st.op != 'rec':
        st = mkrec('$ostream', [(f, fld(f, ty, st)) for f, ty in tm.RECFIELDS['$ostream']]) if st.op == 'ite' else st
    v = I.rv(x)
    if v.op == 'fref':
        nm = v.args[1]
        if nm == 'std::endl': v = strlit('\n'); t = '$seq'
        elif nm in ('std::flush',): return p
        elif nm == 'std::fixed':
            I.write(I.field(p, '$s::fixed', 'bool'), TRUE, 'bool'); return p
        elif nm in ('std::scientific', 'std::hex', 'std::setw', 'std::defaultfloat'):
            I.write(I.field(p, '$s::fixed', 'bool'), FALSE, 'bool') if nm == 'std::defaultfloat' else I.write(I.field(p, '$s::fixed', 'bool'), batom(mk('opq', nm)), 'bool')
            return p
        else: raise IN.Unsupported('manipulator ' + nm)
    if v.op == 'setprec':
        I.write(I.field(p, '$s::prec', 'int'), v.args[0], 'int'); return p
    if v.op == 'opq' and v.args[0] == 'manip': raise IN.Unsupported('manipulator')
    if I.iscout(p):
        return p
    I.write(I.field(p, '$s::buf', '$seq'), cat(fld('$s::buf', '$seq', st), fmt(I, v, t, st)), '$seq')
    return p

def iscout(I, p):
    return p.op == 'ptr' and isinstance(p.args[0], tuple) and p.args[0][0] == 'G'

@_m
def stdstream(I, m, e, p, ct, a, rref):
    IN = _I()
    if 'ofstream' in ct or 'ostream' in ct or 'stringstream' in ct or 'basic_ios' in ct or 'ios_base' in ct:
        st = I.read(p, '$ostream')
        if st.op == 'rec' and st.args[0] == '$istream': return I.stdistream(m, e, p, a)
        F = lambda f, ty: I.read(I.field(p, f, ty), ty)
        if m == 'str':
            if not a: return F('$s::buf', '$seq')
            I.write(I.field(p, '$s::buf', '$seq'), I.rv(a[0]), '$seq'); return IN.VOID
        if m == 'open':
            v = I.rv(a[0])
            mode = [I.rv(x) for x in a[1:]]
            I.write(I.field(p, '$s::path', '$seq'), v, '$seq')
            I.write(I.field(p, '$s::open', 'bool'), TRUE, 'bool')
            I.write(I.field(p, '$s::buf', '$seq'), NIL, '$seq')
            return IN.VOID
        if m == 'close':
            I.closestream(p); return IN.VOID
        if m == 'flush': return p
        if m == 'precision':
            if a: I.write(I.field(p, '$s::prec', 'int'), I.rv(a[0]), 'int'); return ZERO
            return F('$s::prec', 'int')
        if m == 'is_open': return F('$s::open', 'bool')
        if m in ('good', 'operator bool'): return TRUE if 'stringstream' in ct else batom(mk('ostreamok', st))
        if m in ('setf',):
            I.write(I.field(p, '$s::fixed', 'bool'), TRUE, 'bool'); return ZERO
        if m in ('fail', 'operator!', 'bad'): return FALSE if 'stringstream' in ct else lnot(batom(mk('ostreamok', st)))
        if m == 'operator<<': return I.stdout_(p, a[0])
        if m == 'put':
            I.write(I.field(p, '$s::buf', '$seq'), cat(F('$s::buf', '$seq'), fmt(I, I.rv(a[0]), 'char', st)), '$seq'); return p
    if 'ifstream' in ct or 'istream' in ct: return I.stdistream(m, e, p, a)
    raise IN.Unsupported('stream member ' + m)

@_m
def stdistream(I, m, e, p, a):
    IN = _I()
    F = lambda f, ty: I.read(I.field(p, f, ty), ty)
    if m == 'close':
        I.write(I.field(p, '$i::open', 'bool'), FALSE, 'bool'); return IN.VOID
    if m in ('good', 'operator bool', 'is_open'): return F('$i::ok', 'bool')
    if m in ('fail', 'operator!', 'bad'): return lnot(F('$i::ok', 'bool'))
    if m == 'eof': return lnot(F('$i::ok', 'bool'))
    if m == 'open':
        v = I.rv(a[0])
        I.write(p, mkrec('$istream', [('$i::path', v), ('$i::pos', ZERO), ('$i::open', TRUE), ('$i::ok', bapp('fexists', v))]))
        return IN.VOID
    raise IN.Unsupported('istream member ' + m)

def closestream(I, p):
    st = I.read(p, '$ostream')
    o = fld('$s::open', 'bool', st)
    if o is FALSE: return
    path = fld('$s::path', '$seq', st); buf = fld('$s::buf', '$seq', st)
    ev = tm.lift_ite(lambda x, y: lit(mk('fw', x, y)), path, buf)
    b = ('fx', 'log')
    old = I.S.store.get(b, NIL)
    I.S.store[b] = cat(old, ite(o, ev, NIL))
    I.write(I.field(p, '$s::open', 'bool'), FALSE, 'bool')
    I.write(I.field(p, '$s::buf', '$seq'), NIL, '$seq')

# ------------------------------------------------------------------ Clipper and Triangle
@_m
def stdclip(I, m, e, p, a):
    IN = _I()
    if m == 'AddPath':
        path = I.rv(a[0]); typ = I.rv(a[1]); closed = I.rv(a[2])
        def put(f, cond):
            l = I.field(p, f, '$seq')
            old = I.read(l, '$seq')
            I.write(l, ite(cond, cat(old, tm.lift_ite(lambda x, c: lit(mk('path', x, c)), path, ite(closed, ONE, ZERO))), old), '$seq')
        put('$c::subj', eqn(typ, ZERO, True)); put('$c::clip', lnot(eqn(typ, ZERO, True)))
        return TRUE
    if m == 'Execute':
        typ = I.rv(a[0]); l = I.lv(a[1])
        fills = [I.rv(x) for x in a[2:]]
        if len(fills) == 1: fills = fills * 2
        st = I.read(p, '$clipper')
        args = [typ, fld('$c::subj', '$seq', st), fld('$c::clip', '$seq', st)] + [f for f in fills if not False]
        I.write(l, app('clipres', *args), '$seq')
        return bapp('clipok', *args)
    if m == 'Clear':
        I.write(p, I.default('ClipperLib::Clipper')); return IN.VOID
    raise IN.Unsupported('clipper ' + m)

TRIO = [('pointlist', 'double *'), ('pointattributelist', 'double *'), ('pointmarkerlist', 'int *'), ('numberofpoints', 'int'),
        ('numberofpointattributes', 'int'), ('trianglelist', 'int *'), ('triangleattributelist', 'double *'), ('trianglearealist', 'double *'),
        ('neighborlist', 'int *'), ('numberoftriangles', 'int'), ('numberofcorners', 'int'), ('numberoftriangleattributes', 'int'),
        ('segmentlist', 'int *'), ('segmentmarkerlist', 'int *'), ('numberofsegments', 'int'), ('holelist', 'double *'),
        ('numberofholes', 'int'), ('regionlist', 'double *'), ('numberofregions', 'int'), ('edgelist', 'int *'), ('edgemarkerlist', 'int *'),
        ('normlist', 'double *'), ('numberofedges', 'int')]
tm.RECFIELDS['triangulateio'] = tuple(('triangulateio::' + f, t) for f, t in TRIO)
for _f, _t in tm.RECFIELDS['triangulateio']: tm.FIELDTYPES[_f] = _t
INF = ('pointlist', 'pointattributelist', 'pointmarkerlist', 'segmentlist', 'segmentmarkerlist', 'holelist')
INN = ('numberofpoints', 'numberofpointattributes', 'numberofsegments', 'numberofholes', 'numberofregions')
OUTF = ('pointlist', 'pointattributelist', 'pointmarkerlist', 'trianglelist', 'triangleattributelist', 'segmentlist', 'segmentmarkerlist', 'edgelist', 'edgemarkerlist')
OUTN = ('numberofpoints', 'numberofpointattributes', 'numberoftriangles', 'numberofcorners', 'numberoftriangleattributes', 'numberofsegments', 'numberofedges')

def whole(I, z):
    """the array a pointer points to the beginning of"""
    if z.op == 'ptr' and z.args[1] and z.args[1][-1][0] == 'i' and z.args[1][-1][1] is ZERO: z = I.loc(z.args[0], *z.args[1][:-1])
    return I.read(z, '$seq')

@_m
def stdtriangulate(I, a):
    IN = _I()
    sw = I.rv(a[0])
    if sw.op == 'ptr': sw = whole(I, sw)
    pin = I.rv(a[1]); pout = I.rv(a[2])
    ins = []
    for f in INN: ins.append(I.read(I.field(pin, 'triangulateio::' + f, 'int'), 'int'))
    for f in INF:
        q = I.read(I.field(pin, 'triangulateio::' + f, 'int *'), 'int *')
        ins.append(expand(lambda z: NIL if z.op == 'null' else whole(I, z), (q,)))
    vor = I.rv(a[3])
    X = [sw] + ins
    # output arrays that were not NULL on entry are the caller's
    for f in OUTF:
        q = I.read(I.field(pout, 'triangulateio::' + f, 'int *'), 'int *')
        if q.op != 'null': X.append(mk('outptr', f))
    call = app('triangle', *X)
    I.event(call)
    t = call
    for f in OUTN:
        I.write(I.field(pout, 'triangulateio::' + f, 'int'), expand(lambda c: num(mk('len', mk('triout', f, c))), (t,)), 'int')
    for f in OUTF:
        ty = 'double *' if f in ('pointlist', 'pointattributelist', 'triangleattributelist') else 'int *'
        b = I.newbase(ty[:-2] + '[]', expand(lambda c: mk('triout', f, c), (t,)))
        I.write(I.field(pout, 'triangulateio::' + f, ty), I.loc(b), ty)
        I.blocks.append((b, "Triangle's " + f))
    for f in ('holelist', 'numberofholes', 'regionlist', 'numberofregions'):
        ff = 'triangulateio::' + f
        ty = 'int' if f.startswith('number') else 'double *'
        I.write(I.field(pout, ff, ty), I.read(I.field(pin, ff, ty), ty), ty)
    return IN.VOID

# ------------------------------------------------------------------ operators
@_m
def stdop(I, op, e, a):
    IN = _I()
    n = e['f']['n']
    t0 = mstrip(a[0]['t'])
    t1 = mstrip(a[1]['t']) if len(a) > 1 else ''
    rt = mstrip(e['t'])
    if n == 'ClipperLib::operator<<':
        p = I.lv(a[0]); v = I.rv(a[1])
        I.write(p, cat(I.read(p, '$seq'), lit(v)), '$seq')
        return p
    if op == '<<': return I.stdout_(I.lv(a[0]), a[1])
    if op == '>>': raise IN.Unsupported('istream >>')
    if IN.isvit(t0):
        if op == '*':
            v = I.rv(a[0]); return I.index(vc(v), vi(v), IN.elty(IN.targs(t0)[1]))
        if op == '->':
            v = I.rv(a[0]); return I.index(vc(v), vi(v), IN.elty(IN.targs(t0)[1]))
        if op == '[]':
            v = I.rv(a[0]); i = I.rv(a[1])
            return I.index(vc(v), add(vi(v), i), IN.elty(IN.targs(t0)[1]))
        if op in ('++', '--'):
            p = I.lv(a[0]); v = I.read(p, '$vit')
            nv = vit(vc(v), add(vi(v), const(1 if op == '++' else -1)))
            I.write(p, nv, '$vit')
            return p if e['f'].get('rref') else v
        if op in ('+', '-') and not IN.isvit(t1):
            v = I.rv(a[0]); i = I.rv(a[1])
            return vit(vc(v), add(vi(v), i) if op == '+' else sub(vi(v), i))
        if op == '-':
            x = I.rv(a[0]); y = I.rv(a[1])
            return sub(vi(x), vi(y))
        if op in ('+=', '-='):
            p = I.lv(a[0]); v = I.read(p, '$vit'); i = I.rv(a[1])
            I.write(p, vit(vc(v), add(vi(v), i) if op == '+=' else sub(vi(v), i)), '$vit')
            return p
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x = I.rv(a[0]); y = I.rv(a[1])
            return I.compare(op, vi(x), vi(y), 'long')
        if op == '=':
            p = I.lv(a[0]); v = I.rv(a[1]); I.write(p, v, '$vit'); return p
    if 'iterator' in t0 and ('_Rb_tree' in t0 or '_Node_' in t0 or '_Node_iterator' in t0):
        if op in ('==', '!='):
            x = I.rv(a[0]); y = I.rv(a[1])
            r = expand(lambda p, q: miteq(I, p, q), (x, y))
            return r if op == '==' else lnot(r)
        if op in ('->',): return I.rv(a[0])
        if op == '*':
            v = I.rv(a[0])
            return v
        if op == '--':
            p = I.lv(a[0]); v = I.read(p)
            def f(x):
                if x.op == 'mit' and x.args[1] == 'ub': return mk('mit', x.args[0], 'ubprev', x.args[2], x.args[3])
                return mk('opq', 'mit--', x)
            I.write(p, expand(f, (v,)))
            return p
        if op == '=':
            p = I.lv(a[0]); I.write(p, I.rv(a[1])); return p
        raise IN.Unsupported('map iterator ' + op)
    if t0.startswith('std::regex_token_iterator'):
        if op in ('==', '!='):
            x = I.rv(a[0]); y = I.rv(a[1])
            sx = fld('$t::seq', '$seq', x); sy = fld('$t::seq', '$seq', y)
            if sy is NIL: r = le(length(sx), fld('$t::i', 'int', x), True)
            elif sx is NIL: r = le(length(sy), fld('$t::i', 'int', y), True)
            else: r = batom(mk('opq', 'tokeq', x, y))
            return r if op == '==' else lnot(r)
        if op == '++':
            p = I.lv(a[0])
            l = I.field(p, '$t::i', 'int')
            I.write(l, add(I.read(l, 'int'), ONE), 'int')
            return p
        if op in ('*', '->'):
            v = I.rv(a[0])
            return I.loc(I.newbase('$seq', sel(fld('$t::seq', '$seq', v), fld('$t::i', 'int', v), '$seq')))
    if e.get('ismem'):
        m = 'operator' + op
        if IN.isvec(t0) or IN.isstr(t0) or IN.isarr(t0): return I.stdseq(m, e, I.lv(a[0]), t0, a[1:], e['f'].get('rref'))
        if IN.ismap(t0) or IN.isset(t0): return I.stdmap(m, e, I.lv(a[0]), t0, a[1:], e['f'].get('rref'))
        if op == '()' and (t0.startswith('std::uniform_') or 'distribution' in t0):
            p = I.lv(a[0]); g = I.lv(a[1])
            d = I.read(p); en = I.read(g)
            I.write(g, app('adv', en, d))
            return I.symval(rt, None) if False else expand(lambda x, y: tm.typed(rt, mk('draw', x, y)), (d, en))
        if op == '()' and (t0.startswith('std::random_device')):
            return num(mk('entropy'))
        if op == '()' and ('engine' in t0):
            g = I.lv(a[0]); en = I.read(g)
            I.write(g, app('adv', en, mk('raw')))
            return expand(lambda y: tm.typed(rt, mk('draw', mk('raw'), y)), (en,))
        if op == '=':
            p = I.lv(a[0])
            v = I.rv(a[1])
            I.write(p, v); return p
        if op == '!' and ('stream' in t0 or 'ios' in t0): return lnot(I.stdstream('good', e, I.lv(a[0]), t0, [], False))
        if op == 'bool': return I.stdstream('good', e, I.lv(a[0]), t0, [], False)
    if op in ('+',) and (IN.isstr(t0) or IN.isstr(t1)):
        x = I.rv(a[0]); y = I.rv(a[1])
        if IN.isnum(t0): x = fmt(I, x, 'char', None)
        if IN.isnum(t1): y = fmt(I, y, 'char', None)
        return cat(x, y)
    if op in ('==', '!=') and (IN.isseqty(t0) or IN.isseqty(t1)):
        r = I.stdseqeq(I.rv(a[0]), I.rv(a[1]))
        return r if op == '==' else lnot(r)
    if op in ('<', '>', '<=', '>=') and IN.isseqty(t0):
        x = I.rv(a[0]); y = I.rv(a[1])
        if op == '<': return I.stdlt(t0, x, y)
        if op == '>': return I.stdlt(t0, y, x)
        if op == '<=': return lnot(I.stdlt(t0, y, x))
        return lnot(I.stdlt(t0, x, y))
    if op in ('==', '!=', '<') and IN.ispair(t0):
        x = I.rv(a[0]); y = I.rv(a[1])
        if op == '<':
            (f1, ty1), (f2, ty2) = I.fields(t0)
            return lor(I.stdlt(ty1, fld(f1, ty1, x), fld(f1, ty1, y)), land(lnot(I.stdlt(ty1, fld(f1, ty1, y), fld(f1, ty1, x))), I.stdlt(ty2, fld(f2, ty2, x), fld(f2, ty2, y))))
        r = I.stdeq(t0, x, y)
        return r if op == '==' else lnot(r)
    if op in ('==', '!=') and (IN.ismap(t0)):
        x = I.rv(a[0]); y = I.rv(a[1])
        r = TRUE if x is y else batom(mk('mapeq', *sorted((x, y), key=lambda t: t.key)))
        return r if op == '==' else lnot(r)
    if op == '|' or op == '&': 
        return I.arith(op, I.rv(a[0]), I.rv(a[1]), 'int')
    if op == '=' and rt:
        p = I.lv(a[0]); I.write(p, I.rv(a[1])); return p
    raise IN.Unsupported('operator %s on %s, %s' % (op, t0, t1))

# ------------------------------------------------------------------ free functions
SIZES = {'double': 8, 'int': 4, 'float': 4, 'long': 8, 'char': 1}

@_m
def stdf(I, n, e, a):
    IN = _I()
    rref = e['f'].get('rref')
    rt = mstrip(e['t'])
    b = n[5:] if n.startswith('std::') else n
    if b.startswith('__'): b = b.lstrip('_')
    A = lambda i: I.rv(a[i])
    T_ = lambda i: mstrip(a[i]['t'])
    def out(v):
        if rref: return I.loc(I.newbase(rt, v))
        return v
    if b in ('abs', 'fabs', 'labs', 'llabs', 'fabsf', 'builtin_fabs'): return fabs(A(0))
    if b == 'sqrt': return sqrt(A(0))
    if b == 'pow':
        x = A(0); y = A(1)
        if y.op == 'poly' and is_const(y):
            c = cval(y)
            if c.denominator == 1 and abs(c) <= 8:
                r = ONE
                for _ in range(abs(int(c))): r = mul(r, x)
                return r if c >= 0 else div(ONE, r)
            if c == Fraction(1, 2): return sqrt(x)
        return napp('pow', x, y)
    if b == 'hypot':
        x = A(0); y = A(1); return sqrt(add(mul(x, x), mul(y, y)))
    if b in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'ceil', 'round', 'cbrt', 'log10'):
        x = A(0)
        if b in ('cos', 'sin'):
            def f(x):
                if x.op != 'poly': return num(mk('opq', b, x))
                if x is ZERO: return ONE if b == 'cos' else ZERO
                # parity: canonical sign of the argument
                m, c = x.args[0][0] if x.args[0][0][0] != () or len(x.args[0]) == 1 else x.args[0][1]
                if c < 0: 
                    y = num(mk(b, tm.pneg(x)))
                    return y if b == 'cos' else tm.pneg(y)
                return num(mk(b, x))
            return expand(f, (x,))
        return napp(b, x)
    if b == 'floor' or b == 'trunc': return napp(b, A(0))
    if b in ('atan2', 'fmod', 'remainder'): return napp(b, A(0), A(1))
    if b in ('isnan', 'isinf', 'isfinite', 'signbit'): return bapp(b, A(0))
    if b in ('max', 'min', 'fmax', 'fmin'):
        t = T_(0)
        if len(a) == 2:
            x = A(0); y = A(1)
            if IN.isnum(rt):
                if IN.isint(rt): return out(ite(lt(x, y, True), y, x) if b == 'max' else ite(lt(x, y, True), x, y))
                return out(tm.mx(x, y) if b in ('max', 'fmax') else tm.mn(x, y))
            c = I.stdlt(rt, x, y) if b == 'max' else I.stdlt(rt, y, x)
            return out(ite(c, y, x))
        raise IN.Unsupported(b)
    if b in ('max_element', 'min_element'):
        raise IN.Unsupported(b)
    if b == 'move' or b == 'forward' or b == 'as_const': return I.lv(a[0]) if rref else A(0)
    if b == 'make_pair':
        I.fields(rt)
        x = A(0); y = A(1)
        (f1, t1), (f2, t2) = I.fields(rt)
        return mk('rec', rt, ((f1, x), (f2, y))) if not True else mkrec(rt, [(f1, I.stdconv(x, T_(0), t1)), (f2, I.stdconv(y, T_(1), t2))])
    if b == 'swap':
        p = I.lv(a[0]); q = I.lv(a[1]); t = T_(0)
        x = I.read(p, t); y = I.read(q, t)
        I.write(p, y, t); I.write(q, x, t); return IN.VOID
    if b == 'setprecision': return app('setprec', A(0))
    if b == 'endl':
        return I.lv(a[0])
    if b == 'getline':
        p = I.lv(a[0]); l = I.lv(a[1])
        st = I.read(p, '$istream')
        path = fld('$i::path', '$seq', st); pos = fld('$i::pos', 'int', st)
        I.write(l, app('line', path, pos), '$seq')
        I.write(I.field(p, '$i::pos', 'int'), add(pos, ONE), 'int')
        I.write(I.field(p, '$i::ok', 'bool'), bapp('hasline', path, pos), 'bool')
        return p
    if b == 'getenv': return app('getenv', A(0))
    if b in ('atoi', 'atol', 'atoll'): return napp('atoi', A(0))
    if b == 'atof': return napp('atof', A(0))
    if b in ('stoi', 'stod', 'stol', 'stof', 'strtod', 'strtol'):
        v = A(0)
        if b.startswith('sto'): I.throw(lnot(bapp('numeric:' + b, v)), 'std::invalid_argument')
        return napp('atoi' if b in ('stoi', 'stol', 'strtol') else 'atof', v)
    if b == 'to_string':
        t = T_(0)
        v = A(0)
        if IN.isint(t): return fmt(I, v, 'int', None)
        return fmt(I, v, 'double', I.mkfixed())
    if b == 'sort' or b == 'stable_sort':
        x = A(0); y = A(1)
        c = vc(x); ety = IN.elty(IN.targs(T_(0))[1])
        s = I.read(c, '$seq')
        cmp_ = _cmpterm(I, ety, a[2] if len(a) > 2 else None)
        i, j = vi(x), vi(y)
        def f(s, i, j):
            part = slice_(s, i, j)
            return cat(slice_(s, ZERO, i), expand(lambda q: q if (q.op == 'sort' and q.args[1] is cmp_) or q is NIL else mk('sort', q, cmp_), (part,)), slice_(s, j, length(s)))
        I.write(c, expand(f, (s, i, j)), '$seq')
        return IN.VOID
    if b == 'reverse':
        x = A(0); y = A(1); c = vc(x); s = I.read(c, '$seq'); i, j = vi(x), vi(y)
        I.write(c, cat(slice_(s, ZERO, i), tm.rev(slice_(s, i, j)), slice_(s, j, length(s))), '$seq')
        return IN.VOID
    if b == 'find':
        x = A(0); y = A(1); v = A(2)
        c = vc(x); ety = IN.elty(IN.targs(T_(0))[1])
        def f(lo, hi):
            k = fresh(I.looplevel + 1, lo, hi)
            s = I.read(c, '$seq')
            return mkfirst(k, lo, hi, I.stdeq(ety, sel(s, num(k), ety), v))
        return vit(c, expand(f, (vi(x), vi(y))))
    if b in ('find_if', 'find_if_not'):
        x = A(0); y = A(1)
        c = vc(x); ety = IN.elty(IN.targs(T_(0))[1])
        fv = A(2)
        r = I.loc(I.newbase('long', vi(y)))
        found = I.loc(I.newbase('bool', FALSE))
        hi = vi(y)
        def f(lo, hi):
            k = fresh(I.looplevel + 1, lo, hi)
            v = I.stdapply(a[2], [(I.index(c, num(k), ety), ety)], fv)
            return mkfirst(k, lo, hi, v if b == 'find_if' else lnot(v))
        return vit(c, expand(f, (vi(x), vi(y))))
    if b in ('any_of', 'all_of', 'none_of', 'count_if', 'count'):
        x = A(0); y = A(1)
        c = vc(x); ety = IN.elty(IN.targs(T_(0))[1])
        fv = A(2)
        acc = I.loc(I.newbase('bool' if 'of' in b else 'long', {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'count_if': ZERO, 'count': ZERO}[b]))
        def body(l, i):
            v = I.stdapply(a[2], [(l, ety)], fv) if b != 'count' else I.stdeq(ety, I.read(l, ety), fv)
            o = I.read(acc)
            I.write(acc, lor(o, v) if b == 'any_of' else land(o, v) if b == 'all_of' else land(o, lnot(v)) if b == 'none_of' else add(o, ite(v, ONE, ZERO)))
        I.stdeach(c, vi(x), vi(y), ety, body)
        return I.read(acc)
    if b == 'for_each':
        x = A(0); y = A(1); c = vc(x); ety = IN.elty(IN.targs(T_(0))[1]); fv = A(2)
        I.stdeach(c, vi(x), vi(y), ety, lambda l, i: I.stdapply(a[2], [(l, ety)], fv))
        return fv
    if b == 'accumulate':
        x = A(0); y = A(1); c = vc(x); ety = IN.elty(IN.targs(T_(0))[1])
        acc = I.loc(I.newbase(rt, A(2)))
        fv = A(3) if len(a) > 3 else None
        def body(l, i):
            o = I.read(acc, rt)
            if fv is None:
                v = add(o, I.read(l, ety)) if IN.isnum(rt) else cat(o, I.read(l, ety))
            else: v = I.stdapply(a[3], [(acc, rt), (l, ety)], fv)
            I.write(acc, v, rt)
        I.stdeach(c, vi(x), vi(y), ety, body)
        return I.read(acc, rt)
    if b == 'iota':
        x = A(0); y = A(1); c = vc(x); v0 = A(2)
        def body(l, i): I.write(l, add(v0, sub(i, vi(x))))
        I.stdeach(c, vi(x), vi(y), 'int', body)
        return IN.VOID
    if b in ('copy', 'transform', 'copy_if'):
        x = A(0); y = A(1); c = vc(x); ety = IN.elty(IN.targs(T_(0))[1]); o = A(2)
        fv = A(3) if len(a) > 3 else None
        def body(l, i):
            v = I.read(l, ety) if b == 'copy' else (I.stdapply(a[3], [(l, ety)], fv) if b == 'transform' else I.read(l, ety))
            if o.op == 'backins':
                cond = TRUE if b != 'copy_if' else I.stdapply(a[3], [(l, ety)], fv)
                q = o.args[0]; s = I.read(q, '$seq')
                I.write(q, ite(cond, cat(s, lit(v)), s), '$seq')
            else:
                if b == 'copy_if': raise IN.Unsupported('copy_if')
                I.write(I.index(vc(o), add(vi(o), sub(i, vi(x))), '?'), v)
        I.stdeach(c, vi(x), vi(y), ety, body)
        return o if o.op == 'backins' else vit(vc(o), add(vi(o), sub(vi(y), vi(x))))
    if b == 'back_inserter': return mk('backins', I.lv(a[0]))
    if b == 'distance': return sub(vi(A(1)), vi(A(0)))
    if b in ('next', 'prev'):
        v = A(0); d = A(1) if len(a) > 1 else ONE
        return vit(vc(v), add(vi(v), d) if b == 'next' else sub(vi(v), d))
    if b in ('begin', 'end', 'cbegin', 'cend'):
        p = I.lv(a[0])
        return vit(p, ZERO if 'begin' in b else length(I.read(p, T_(0))))
    if b == 'malloc':
        nb = A(0)
        bb = I.newbase('malloc', expand(lambda x: mk('cat', (mk('rawmem', x),)), (nb,)))
        I.blocks.append((bb, 'the block taken at line %s' % e.get('l')))
        return I.loc(bb)
    if b == 'free':
        v = A(0)
        fb = ('fx', 'free')
        I.S.store[fb] = cat(I.S.store.get(fb, NIL), tm.lift_ite(lambda q: lit(q), v))
        if I.opts.get('freed') and v.op == 'ptr': I.write(I.loc(v.args[0]), mk('undef', 'freed'), '$seq')
        return IN.VOID
    if b == 'triangulate': return I.stdtriangulate(a)
    if b in ('operator|', 'operator&'): return I.arith(b[-1], A(0), A(1), 'int')
    if b == 'isspace' or b == 'isdigit': return napp(b, A(0))
    if b == 'memcpy' or b == 'memset': raise IN.Unsupported(b)
    if b in ('exit', 'abort', '_Exit', 'quick_exit', 'terminate'):
        I.throw(TRUE, '$' + b); return IN.VOID
    if b == 'hash': pass
    return I.external(e['f'], None, a)

def mkfixed(I):
    s = I.mkstream(NIL)
    return mkrec('$ostream', [(f, TRUE if f == '$s::fixed' else v) for f, v in s.args[1]])

def mitloc(I, it): return it
