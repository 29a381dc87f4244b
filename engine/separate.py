"""Random interpretation of normal forms (Gulwani and Necula): two value graphs that the rewriting system could
not bring to the same form are reported as different only when an interpretation of their leaves separates them.
Only graphs built by the analysis are interpreted here; no part of the analysed program is executed.
Anything without a meaning (uninitialised, out of range, uninterpreted construct) makes an interpretation
inconclusive."""
import hashlib, math, random, time, functools, json, os
from fractions import Fraction
import terms as tm
import interp as IN
from terms import T

class Undefined(Exception): pass
EPS = Fraction(1, 10**12)

class Obj(object):
    """an uninterpreted value"""
    __slots__ = ('key',)
    def __init__(self, *key): self.key = key
    def __eq__(self, o): return isinstance(o, Obj) and o.key == self.key
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.key)
    def __repr__(self): return 'Obj%r' % (self.key,)
    def __lt__(self, o): return repr(self.key) < repr(o.key)

class Rec(object):
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
    def __repr__(self): return '%s%r' % (self.cls, self.f)

class Map(object):
    __slots__ = ('d',)
    def __init__(self, d): self.d = d       # canonical key -> (key, value)
    def __repr__(self): return 'Map%r' % (list(self.d.values()),)

class Bad(object):
    """an element without a value"""
    def __repr__(self): return 'Bad'
BAD = Bad()
NAN = Bad()      # divided by a count that is zero: not a number, whatever the rest
BYZERO = 'divided by a count of zero'
CARRY = frozenset(('poly', 'inv', 'ite', 'abs', 'sum'))

class Int(Fraction):
    """a leaf of an integer type"""
    __slots__ = ()

def canon(v):
    """hashable form of a value, equal for equal values"""
    if isinstance(v, bool): return ('b', v)
    if isinstance(v, (int, Fraction)):
        return ('n', round(Fraction(v) * 10**9))
    if isinstance(v, Obj): return ('o', v.key)
    if isinstance(v, Rec): return ('r',) + tuple(canon(x) for x in v.f.values())
    if isinstance(v, Map): return ('m', tuple(sorted((k, canon(x[1])) for k, x in v.d.items())))
    if isinstance(v, (list, tuple)): return ('l',) + tuple(canon(x) for x in v)
    if isinstance(v, str): return ('s', v)
    if v is BAD or v is NAN: raise Undefined('element')
    if v is None: return ('none',)
    raise Undefined('canon %r' % type(v))

CACHED = ('Polygon::area', 'Polygon::diameter', 'Polygon::centroid')
def known(v):
    """v without remembered measures and members this analysis does not know"""
    if isinstance(v, Rec): return Rec(v.cls, {f: known(x) for f, x in v.f.items() if x is not BAD and f not in CACHED})
    if isinstance(v, list): return [known(x) for x in v]
    return v

class SymKey(tuple):
    pass

def ckey(v):
    """identity of a map key"""
    if isinstance(v, SymKey): return ('seg',) + tuple(sorted((canon(v[0]), canon(v[1]))))
    if isinstance(v, Rec):
        if any(x is BAD or x is NAN for x in v.f.values()): raise Undefined('element')
        fs = {k.split('::')[-1]: x for k, x in v.f.items()}
        if 'p1' in fs and 'p2' in fs: return ('seg',) + tuple(sorted((canon(fs['p1']), canon(fs['p2']))))
        if 'first' in fs and 'second' in fs and v.cls.startswith('Key'): return ('seg',) + tuple(sorted((canon(fs['first']), canon(fs['second']))))
        if 'x' in fs and 'y' in fs and all(isinstance(fs[c], (int, Fraction)) for c in 'xy'): return ('pt', round(fs['x'] * 100), round(fs['y'] * 100))
    return canon(v)

def hsh(*a):
    return int.from_bytes(hashlib.md5(repr(a).encode()).digest()[:8], 'big')

def triangulation(r):
    """(number of points, triangles, edges) of a small triangulation"""
    nt = r.choice([0, 1, 1, 2, 3, 4])
    np_ = nt + 2 if nt else r.choice([0, 2])
    perm = list(range(np_)); r.shuffle(perm)
    tris = [(perm[0], perm[i + 1], perm[i + 2]) for i in range(nt)]
    if r.random() < 0.5 and nt > 2: tris.append((perm[0], perm[nt + 1], perm[1]))
    r.shuffle(tris)
    edges = []
    for a in tris:
        for x, y in ((a[0], a[1]), (a[1], a[2]), (a[2], a[0])):
            if (x, y) not in edges and (y, x) not in edges: edges.append((x, y))
    r.shuffle(edges)
    return np_, tris, edges

_base = []
def newfields(I, fs):
    """members that the library's classes did not have when the interpretations were written: which values they may
    take together with the others is not known, except that an object starts with their initial value"""
    if not _base:
        try: _base.append(set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fields.json')))))
        except IOError: _base.append(None)
    if _base[0] is None: return {}
    out = {}
    for f, t in fs:
        if f in _base[0]: continue
        cls, name = f.rsplit('::', 1)
        R = I.prog.records.get(cls)
        if R is None or '/spec/' in R.get('file', ''): continue
        out[f] = None
        for q in R['fields']:
            if q['n'] != f: continue
            try:
                if q.get('init'):
                    from interp import Ctx
                    save = I.ctx
                    I.ctx = Ctx(None)
                    try: out[f] = I.rv(q['init'])
                    finally: I.ctx = save
                elif I.fields(IN.strip(t)) or IN.isseqty(IN.strip(t)) or IN.ismap(IN.strip(t)): out[f] = I.default(t)
            except Exception: pass
    return out

class World(object):
    """one interpretation of the leaves"""
    def __init__(self, I, params, seed, history=False):
        self.I = I; self.seed = seed
        self.rng = random.Random(seed)
        r = self.rng
        self.N = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7])
        self.grid = r.choice([1, 2, 2, 3, 3, 5, 9])
        self.tol = Fraction(1, r.choice([1000, 1000, 4, 10**6]))
        self.fuzz = r.random() < 0.35
        self.frac = r.random() < 0.3
        self.big = r.random() < 0.1
        self.salt = 0; self.guessed = set()
        self.syms = {}
        self.mem = {}
        self.last = []
        for i, p in enumerate(params):
            self.syms['a%d' % i] = self.gen(IN.strip(p['t']))
        if history:
            for i, p in enumerate(params): self.syms['b%d' % i] = self.gen(IN.strip(p['t']))
    def real(self):
        r = self.rng
        if self.big and r.random() < 0.4: return Fraction(r.choice([1, -1]) * r.randint(2**31, 2**40))
        v = Fraction(r.randint(-self.grid // 2, self.grid))
        if self.frac: v += Fraction(r.randint(0, 3), 4)
        if self.fuzz and r.random() < 0.4: v += r.choice([-1, 1]) * self.tol * r.choice([Fraction(1, 3), Fraction(1, 2), Fraction(9, 10), Fraction(11, 10), 2])
        return v
    def int(self):
        r = self.rng
        x = r.random()
        if x < 0.75 and self.N: return Int(r.randrange(self.N))
        return Int(r.choice([-1, 0, 1, 2, 3, self.N, self.N + 1]))
    def gen(self, ty, d=0):
        I = self.I; r = self.rng
        ty = IN.strip(ty)
        if d > 7: raise Undefined('depth')
        if ty == 'bool': return r.random() < 0.5
        if ty in ('double', 'float', 'long double'): return self.real()
        if ty == 'char': return Int(r.randint(97, 100))
        if IN.isnum(ty): return self.int()
        if IN.isstr(ty): return [Obj('str', r.randint(0, 5))]
        if IN.isptr(ty): return Obj('p', ty, r.randint(0, 2) if d else len(self.mem) + 1000 + r.randint(0, 10**6))
        if IN.isseqty(ty):
            e = IN.elty(ty)
            es = e.split('::')[-1]
            n = self.N if es == 'Point' else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
            if e in ('int',) and r.random() < 0.35 and self.N:
                l = [Int(i) for i in range(self.N)]
                if r.random() < 0.5: r.shuffle(l)
                return l[:r.choice([self.N, self.N, max(0, self.N - 1)])]
            if e == 'int' and self.N: return [Int(r.randrange(self.N)) for _ in range(r.choice([n, self.N]))]
            return [self.gen(e, d + 1) for _ in range(n)]
        if IN.ismap(ty):
            a = IN.targs(ty); m = {}
            for _ in range(r.choice([0, 1, 2, 4, 8])):
                k = self.gen(a[0], d + 1); m.setdefault(ckey(k), (k, self.gen(a[1], d + 1)))
            return Map(m)
        if IN.isset(ty):
            a = IN.targs(ty); m = {}
            for _ in range(r.randint(0, 4)):
                k = self.gen(a[0], d + 1); m.setdefault(ckey(k), (k, True))
            return Map(m)
        fs = I.fields(ty)
        if fs:
            new = newfields(I, fs)
            v = Rec(ty, {f: BAD if f in new else self.gen(t, d + 1) for f, t in fs})
            for f, t in fs:
                if f in new and new[f] is not None:
                    try: v.f[f] = Ev(I.prog, I, self).elem(new[f], {})
                    except Undefined: pass
            self.coherent(v, ty)
            return v
        return Obj('v', ty, r.randint(0, 3))
    def fixed(self, f, part, key):
        """some value of a function without a normal form: any, but the same for the same arguments"""
        r = random.Random(key); self.guessed.add('ol:' + f['m'])
        if part.startswith('throws'): return r.random() < 0.1
        ty = IN.strip(f['cls']) if part == 'this' else IN.strip(f['params'][int(part)]['t']) if part else IN.strip(f['rt'])
        keep = self.rng; self.rng = r
        try: return self.gen(ty, 1)
        finally: self.rng = keep
    def coherent(self, v, ty):
        """representation invariants of the library's own types"""
        names = {f.split('::')[-1]: f for f in v.f}
        if 'UniqueList<' in ty and 'list' in names and 'map' in names:
            l = []; m = {}
            for x in v.f[names['list']]:
                if ckey(x) in m: continue
                m[ckey(x)] = (x, Fraction(len(l))); l.append(x)
            v.f[names['list']] = l; v.f[names['map']] = Map(m)
        if 'Hole::HolePoints' in v.f and 'Hole::segments' in v.f:
            # the segments of a hole are its ring
            n = len(v.f['Hole::HolePoints'])
            v.f['Hole::segments'] = [self.segment(i, (i + 1) % n) for i in range(n)]
        if 'IndexSegment::hash' in v.f: v.f['IndexSegment::hash'] = self.seghash(v.f['Segment<int>::p1'], v.f['Segment<int>::p2'])
        for f in v.f:
            if f == 'Polygon::points':
                n = self.N
                l = list(range(n))
                x = self.rng.random()
                if x < 0.3: l = l[::-1]
                elif x < 0.6: self.rng.shuffle(l)
                elif x < 0.7 and n: l = [self.rng.randrange(n) for _ in range(n + self.rng.randint(-1, 1))]
                v.f[f] = [Int(i) for i in l]

        if 'DelaunayInfo::edges' in v.f and self.rng.random() < 0.9: self.delaunay(v)
    def delaunay(self, v):
        """the parts of a DelaunayInfo describe one triangulation"""
        r = self.rng
        np_, tris, edges = triangulation(r)
        of = lambda a, b: [i for i, t in enumerate(tris) if a in t and b in t]
        rec = lambda ty: self.gen(ty, 3)
        def put(x, **kw):
            for f in x.f:
                n = f.split('::')[-1]
                if n in kw: x.f[f] = kw[n]
            return x
        F = Int
        N = self.N
        self.N = np_
        pts = self.gen('std::vector<Point>', 3)
        self.N = N
        nc = r.randint(1, len(tris)) if tris and r.random() < 0.3 else len(tris)
        T_ = [put(rec('Triangle'), points=[F(x) for x in t], circumcenterIndex=F(i if i < nc else r.randrange(nc))) for i, t in enumerate(tris)]
        E = []
        at = [-1] * np_
        border = {x for a, b in edges if len(of(a, b)) == 1 for x in (a, b)}
        for i, (a, b) in enumerate(edges):
            o = of(a, b)
            E.append(put(rec('EdgeData'), p1=F(a), p2=F(b), t1=F(o[0]), t2=F(o[1] if len(o) > 1 else -1)))
            for x in (a, b):
                if at[x] == -1 or len(o) == 1: at[x] = i
        D = [put(rec('PointData'), point=F(i), edge=F(at[i])) for i in range(np_)]
        m = {}
        for i, (a, b) in enumerate(edges):
            k = put(rec('Key'), first=F(a), second=F(b))
            for f in k.f:
                if f.split('::')[-1] in ('p1', 'i1', 'a'): k.f[f] = F(a)
                if f.split('::')[-1] in ('p2', 'i2', 'b'): k.f[f] = F(b)
            m[ckey(k)] = (k, Fraction(i))
        used = sorted({x for t in tris for x in t}); r.shuffle(used)
        self.N = nc
        cc = self.gen('std::vector<Point>', 3); self.N = N
        def unique(f, l):
            u = v.f[f]; q = {}
            for g in u.f:
                if g.endswith('::list'): u.f[g] = l
                if g.endswith('::map'): u.f[g] = Map({ckey(x): (x, Fraction(i)) for i, x in reversed(list(enumerate(l)))})
        for f in list(v.f):
            n = f.split('::')[-1]
            if n == 'triangles': v.f[f] = T_
            elif n == 'meshPoints': v.f[f] = pts
            elif n == 'points': v.f[f] = D
            elif n == 'edges': v.f[f] = E
            elif n == 'edgeMap': v.f[f] = Map(m)
            elif n == 'realPoints': unique(f, [F(x) for x in used])
            elif n == 'circumcenters':
                l = []
                for x in cc:
                    if all(ckey(x) != ckey(y) for y in l): l.append(x)
                if len(l) == nc: unique(f, l)
                else:
                    unique(f, l)
                    for t in T_:
                        for g in t.f:
                            if g.split('::')[-1] == 'circumcenterIndex': t.f[g] = F(r.randrange(len(l)) if l else 0)
    def segment(self, a, b):
        return Rec('IndexSegment', {'Segment<int>::p1': Int(a), 'Segment<int>::p2': Int(b), 'IndexSegment::hash': self.seghash(a, b)})
    def seghash(self, a, b):
        M = (1 << 64) - 1
        def h(k):
            k = (61 ^ (k & M)) ^ ((k & M) >> 16)
            k = k + (k << 3)
            k = (k & M) ^ ((k & M) >> 4)
            k = k * 0x27d4eb2d
            return (k & M) ^ ((k & M) >> 15)
        return Int(h(int(a)) + h(int(b)))

_order = {}
def order(t):
    r = _order.get(t.fs)
    if r is None: r = _order[t.fs] = sorted(t.fs, key=lambda x: x.key)
    return r

class Ev(object):
    LIMIT = 60000
    def __init__(self, P, I, W, syms=None):
        self.P = P; self.I = I; self.W = W
        self.syms = W.syms if syms is None else syms
        self.memo = {}
        self.steps = 0
        self.oob = False
        self.root = self
        self.toks = {}; self.interned = {}; self.subs = {}
    def tok(self, v):
        """equal for equal values"""
        if isinstance(v, (int, Fraction, bool)): return v
        if v is BAD: return 'bad'
        if v is NAN: return 'nan'
        R = self.root
        r = R.toks.get(id(v))
        if r is None:
            try: c = canon(v)
            except Undefined: c = ('id', id(v))
            r = R.toks[id(v)] = (v, ('t', R.interned.setdefault(c, len(R.interned))))
        return r[1]
    def sub(self, vals):
        """the evaluation of another graph with these arguments"""
        k = tuple(self.tok(v) for v in vals)
        e = self.root.subs.get(k)
        if e is None:
            e = self.root.subs[k] = Ev(self.P, self.I, self.W, {'a%d' % i: v for i, v in enumerate(vals)})
            e.root = self.root
        return e
    # ------------------------------------------------------------------ conversions
    def num(self, v):
        if isinstance(v, bool): return Fraction(int(v))
        if isinstance(v, (int, Fraction)): return Fraction(v)
        if isinstance(v, Obj): return Fraction(hsh('n', self.W.seed, v.key) % (1009 if v.key[0] == 'oob' or v.key[0] == 'fld' else 5))
        raise Undefined('num of %r' % type(v))
    def bool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, Obj): return bool(hsh('b', self.W.seed, v.key) % 2)
        if isinstance(v, (int, Fraction)): return v != 0
        raise Undefined('bool')
    def seq(self, v):
        if isinstance(v, list): return v
        if isinstance(v, Obj):
            n = hsh('len', self.W.seed, v.key) % 4
            return [Obj('el', v.key, i) for i in range(n)]
        raise Undefined('seq of %r' % type(v))
    def map(self, v):
        if isinstance(v, Map): return v
        raise Undefined('map')
    # ------------------------------------------------------------------ evaluation
    def __call__(self, t, env):
        self.root.steps += 1
        if self.root.steps > self.LIMIT: raise Undefined('steps')
        if not isinstance(t, T):
            if isinstance(t, tuple): return tuple(self(x, env) for x in t)
            return t
        if t.fs:
            try: k = (t, tuple([self.tok(env[x]) for x in order(t)]))
            except KeyError: raise Undefined('free variable')
        else: k = t
        m = self.memo
        if k in m:
            v = m[k]
            if v is BAD: raise Undefined('memo')
            if v is NAN and t.op in CARRY: raise Undefined(BYZERO)
            return v
        try: v = self.ev(t, env)
        except Undefined as e:
            if e.args and e.args[0] == BYZERO:
                if t.op in CARRY: m[k] = NAN; raise
                m[k] = BAD
                raise Undefined('division by zero')
            m[k] = BAD
            raise
        m[k] = v
        return v
    def elem(self, t, env):
        try: return self(t, env)
        except Undefined as e:
            if e.args and e.args[0] == 'steps': raise
            return NAN if e.args and e.args[0] == BYZERO else BAD
    def counts(self, t):
        """whole by its type: a number of things, not a measure"""
        if t.op == 'sym': return isinstance(self.syms.get(t.args[0]), Int)
        if t.op in ('len', 'idiv', 'imod', 'trunc', 'atoi', 'bv'): return True
        if t.op == 'poly': return all(c.denominator == 1 and all(e > 0 and self.counts(a) for a, e in m) for m, c in t.args[0])
        return False
    def ev(self, t, env):
        op = t.op
        f = getattr(self, 'o_' + op.replace('$', '_').replace('^', 'xor').replace('&', 'and').replace('|', 'or').replace('~', 'not').replace('<<', 'shl').replace('>>', 'shr').replace(':', '_'), None)
        if f is not None: return f(t, env, *t.args)
        return self.hashed(t, env)
    def hashed(self, t, env):
        return Obj(t.op, tuple(canon(self(a, env)) for a in t.args))
    def o_opq(self, t, env, *a): raise Undefined('opq')
    def o_undef(self, t, env, *a): raise Undefined('undef')
    def o_oob(self, t, env, *a): raise Undefined('oob')
    def o_divzero(self, t, env, *a): raise Undefined('divzero')
    def o_true(self, t, env): return True
    def o_false(self, t, env): return False
    def o_none(self, t, env): return None
    def o_null(self, t, env): return Obj('null')
    def o_sym(self, t, env, n):
        if n == '$config': return Obj('config')
        if n in self.syms: return self.syms[n]
        return Obj('sym', n)
    def o_bv(self, t, env, h): return env[t]
    def o_slot(self, t, env, *a):
        v = env[t]
        if v is BAD or v is NAN: raise Undefined('slot')
        return v
    def o_poly(self, t, env, ms):
        r = Fraction(0)
        for m, c in ms:
            x = c
            for a, e in m:
                v = self.num(self(a, env))
                if e < 0 and v == 0: raise Undefined(BYZERO if self.counts(a) else 'division by zero')
                x = x * v ** e
            r += x
        return r
    def o_inv(self, t, env, p):
        v = self.num(self(p, env))
        if v == 0 and self.counts(p): raise Undefined(BYZERO)
        if abs(v) < EPS: raise Undefined('division by zero')
        return 1 / v
    def test(self, t, env):
        try: return self(t, env)
        except Undefined as e:
            if e.args and e.args[0] == BYZERO: raise Undefined('division by zero')
            raise
    def o_ite(self, t, env, v, cuts, kids):
        if v.op == 'tb': return self(kids[1 if self.bool(self.test(v.args[0], env)) else 0], env)
        x = self.num(self.test(v.args[0], env))
        i = 0
        for c, e in cuts:
            d = x - c
            if abs(d) < EPS: d = 0
            if d > 0 or (d == 0 and e == 0): i += 1
            else: break
        return self(kids[i], env)
    def o_tb(self, t, env, a): return self.bool(self(a, env))
    def o_abs(self, t, env, x): return abs(self.num(self(x, env)))
    def o_sqrt(self, t, env, x):
        v = self.num(self(x, env))
        if v < 0: raise Undefined('sqrt')
        S = 10**40
        return Fraction(math.isqrt(v.numerator * S * S // v.denominator), S)
    def o_idiv(self, t, env, x, y):
        a, b = self.num(self(x, env)), self.num(self(y, env))
        if b == 0 or a.denominator != 1 or b.denominator != 1: raise Undefined('idiv')
        q = abs(a.numerator) // abs(b.numerator)
        return Fraction(q if (a >= 0) == (b > 0) else -q)
    def o_imod(self, t, env, x, y):
        a, b = self.num(self(x, env)), self.num(self(y, env))
        if b == 0 or a.denominator != 1 or b.denominator != 1: raise Undefined('imod')
        r = abs(a.numerator) % abs(b.numerator)
        return Fraction(r if a >= 0 else -r)
    def o_trunc(self, t, env, k, x):
        v = self.num(self(x, env))
        q = abs(v.numerator) // v.denominator
        if k == 'i32' and q >= 2**31: return Fraction(hsh('wrap', q) % 1000 + 10**6)
        return Fraction(q if v >= 0 else -q)
    def o_narrow(self, t, env, ty, x):
        v = self.num(self(x, env))
        if abs(v) >= 2**31: return Fraction(hsh('narrow', str(v)) % 1000 + 10**6)
        return v
    def o_ulong(self, t, env, x): return self.num(self(x, env))
    def o_tofloat(self, t, env, x):
        v = self.num(self(x, env))
        import struct
        try: return Fraction(struct.unpack('f', struct.pack('f', float(v)))[0])
        except OverflowError: raise Undefined('float')
    def fl(self, f, *xs):
        try: return Fraction(f(*[float(self.num(x)) for x in xs]))
        except (ValueError, OverflowError, ZeroDivisionError): raise Undefined('float')
    def o_sin(self, t, env, x): return self.fl(math.sin, self(x, env))
    def o_cos(self, t, env, x): return self.fl(math.cos, self(x, env))
    def o_tan(self, t, env, x): return self.fl(math.tan, self(x, env))
    def o_atan(self, t, env, x): return self.fl(math.atan, self(x, env))
    def o_acos(self, t, env, x): return self.fl(math.acos, self(x, env))
    def o_asin(self, t, env, x): return self.fl(math.asin, self(x, env))
    def o_atan2(self, t, env, x, y): return self.fl(math.atan2, self(x, env), self(y, env))
    def o_exp(self, t, env, x): return self.fl(math.exp, self(x, env))
    def o_log(self, t, env, x): return self.fl(math.log, self(x, env))
    def o_floor(self, t, env, x): return Fraction(math.floor(self.num(self(x, env))))
    def o_ceil(self, t, env, x): return Fraction(math.ceil(self.num(self(x, env))))
    def o_pi(self, t, env): return Fraction(math.pi)
    def o_pow(self, t, env, x, y): return self.fl(math.pow, self(x, env), self(y, env))
    def ints(self, env, *xs):
        r = []
        for x in xs:
            v = self.num(self(x, env))
            if v.denominator != 1: raise Undefined('bits')
            r.append(v.numerator & 0xffffffffffffffff)
        return r
    def o_bitxor(self, t, env, *a): return Fraction(functools.reduce(lambda x, y: x ^ y, self.ints(env, *a)))
    def o_bitand(self, t, env, *a): return Fraction(functools.reduce(lambda x, y: x & y, self.ints(env, *a)))
    def o_bitor(self, t, env, *a): return Fraction(functools.reduce(lambda x, y: x | y, self.ints(env, *a)))
    def o_bitshl(self, t, env, x, y): a, b = self.ints(env, x, y); return Fraction(a << min(b, 64))
    def o_bitshr(self, t, env, x, y): a, b = self.ints(env, x, y); return Fraction(a >> min(b, 64))
    def o_tokens(self, t, env, *a):
        k = tuple(canon(self(x, env)) for x in a)
        r = random.Random(hsh('tokens', self.W.seed, k))
        return [[Obj('ch', k, i, j) for j in range(r.choice((0, 1, 1, 2, 2)))] for i in range(r.choice((3, 4, 4, 5) if self.W.seed % 3 == 0 else (0, 1, 2, 2, 3, 3, 4, 5)))]
    # in one world out of three the numbers of a text repeat, and words hold smaller ones than lines
    def o_atof(self, t, env, x):
        h = hsh('atof', self.W.seed, canon(self(x, env)))
        return Fraction(h % 2 if self.W.seed % 3 == 0 else h % 7 - 2)
    def o_atoi(self, t, env, x):
        v = self(x, env); h = hsh('atoi', self.W.seed, canon(v))
        if self.W.seed % 3: return Fraction(h % 5)
        return Fraction(h % 3 if isinstance(v, list) and v and isinstance(v[0], Obj) and v[0].key[:1] == ('ch',) else 2 + h % 3)
    # ------------------------------------------------------------------ records and memory
    def o_rec(self, t, env, cls, fs): return Rec(cls, {f: self.elem(v, env) for f, v in fs})
    def o_fld(self, t, env, f, x):
        v = self(x, env)
        if isinstance(v, Rec):
            r = v.f.get(f, BAD)
            if r is BAD or r is NAN: raise Undefined('field')
            return r
        if isinstance(v, Obj):
            if v == Obj('deref', Obj('config').key): return self.config(f)
            if v == Obj('sym', '$config1'): return self.config(f) * 3 + 2
            return Obj('fld', f, v.key)
        raise Undefined('field of %r' % type(v))
    def config(self, f):
        n = f.split('::')[-1]
        if n == 'tolerance': return self.W.tol
        v = next((c for k, c in (('precision', (4, 5, 0, 2, 9, 17, -1)), ('scale', (10, 11, 1, 100, 100000, 3000000, 7)), ('grade', (5, 6, 1, 2, 3, 8, 13))) if k in n.lower()), None)
        if v: return Fraction(v[hsh('cfg', f, self.W.seed) % 7] if self.W.seed > 3 else v[self.W.seed % 2])
        return Fraction(hsh('cfg', f) % 5 + 1 + self.W.seed % 2)
    def o_ptr(self, t, env, b, path):
        bb = canon(self(b[1], env)) if isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], T) else ('base', repr(b))
        return Obj('ptr', bb, tuple((p[0], canon(self(p[1], env)) if isinstance(p[1], T) else p[1]) for p in path))
    def o_deref(self, t, env, p):
        v = self(p, env)
        if not isinstance(v, Obj): raise Undefined('deref')
        if v == Obj('config'): return Obj('deref', v.key)
        if v == Obj('null'): raise Undefined('null')
        if v.key not in self.W.mem:
            ty = self.I.btype.get(('D', p), '?')
            if ty == '?' and v.key and v.key[0] == 'p': ty = v.key[1][:-1].strip()
            if ty == '?': raise Undefined('deref type')
            rng = self.W.rng
            self.W.rng = random.Random(hsh(self.W.seed, v.key))
            try: self.W.mem[v.key] = self.W.gen(ty)
            finally: self.W.rng = rng
        return self.W.mem[v.key]
    def o_gsym(self, t, env, g): raise Undefined('history')
    def o_nonnull(self, t, env, p): return self(p, env) != Obj('null')
    def o_ptreq(self, t, env, x, y): return self(x, env) == self(y, env)
    # ------------------------------------------------------------------ sequences
    def o_cat(self, t, env, ps):
        r = []
        for p in ps: r += self.part(p, env)
        return r
    def part(self, p, env):
        if p.op == 'lit': return [self.elem(x, env) for x in p.args[0]]
        if p.op == 'str': return [Fraction(ord(c)) for c in p.args[0]]
        if p.op in ('fmti', 'fmtd'): return [Obj(p.op, tuple(canon(self(a, env)) for a in p.args))]
        if p.op == 'uninit':
            n = self.num(self(p.args[0], env))
            if n < 0 or n > 200: raise Undefined('uninit')
            return [BAD] * int(n)
        return self.seq(self(p, env))
    def o_lit(self, t, env, *a): return self.part(t, env)
    def o_str(self, t, env, *a): return self.part(t, env)
    def o_fmti(self, t, env, *a): return self.part(t, env)
    def o_fmtd(self, t, env, *a): return self.part(t, env)
    def o_uninit(self, t, env, *a): return self.part(t, env)
    def rng(self, env, lo, hi):
        a, b = self.num(self(lo, env)), self.num(self(hi, env))
        if a.denominator != 1 or b.denominator != 1: raise Undefined('range')
        if b - a > 200 or b < a: raise Undefined('range')
        return range(int(a), int(b))
    def under(self, h, k, env):
        e = dict(env); e[tm.BV(h)] = Fraction(k); return e
    def o_comp(self, t, env, h, lo, hi, body):
        r = []
        for k in self.rng(env, lo, hi): r += self.seq(self(body, self.under(h, k, env)))
        return r
    def o_sum(self, t, env, h, lo, hi, body): return sum((self.num(self(body, self.under(h, k, env))) for k in self.rng(env, lo, hi)), Fraction(0))
    def o_any(self, t, env, h, lo, hi, body):
        bad = False
        for k in self.rng(env, lo, hi):
            try:
                if self.bool(self(body, self.under(h, k, env))): return True
            except Undefined as e:
                if e.args and e.args[0] == 'steps': raise
                bad = True
        if bad: raise Undefined('any')
        return False
    def o_parity(self, t, env, h, lo, hi, body):
        r = False
        for k in self.rng(env, lo, hi): r ^= self.bool(self(body, self.under(h, k, env)))
        return r
    def o_first(self, t, env, h, lo, hi, body):
        for k in self.rng(env, lo, hi):
            if self.bool(self(body, self.under(h, k, env))): return Fraction(k)
        return self.num(self(hi, env))
    def o_last(self, t, env, h, lo, hi, body):
        for k in reversed(self.rng(env, lo, hi)):
            if self.bool(self(body, self.under(h, k, env))): return Fraction(k)
        return self.num(self(hi, env))
    def o_maxov(self, t, env, h, lo, hi, body):
        r = [self.num(self(body, self.under(h, k, env))) for k in self.rng(env, lo, hi)]
        if not r: raise Undefined('max of nothing')
        return max(r)
    def o_len(self, t, env, s):
        if s.op == 'triout': return Fraction(self.tri(s, env, True))
        v = self(s, env)
        if isinstance(v, Map): return Fraction(len(v.d))
        return Fraction(len(self.seq(v)))
    def o_sel(self, t, env, s, i):
        n = self.num(self(i, env))
        l = self.seq(self(s, env)) if s.op in ('cat', 'comp', 'lit', 'str', 'slice', 'rev', 'upd', 'erase1', 'sort', 'resize', 'uninit') else self.seq(self(s, env))
        if n.denominator != 1: raise Undefined('index')
        if n < 0 or n >= len(l):
            # normal forms extend sums over neighbouring indices: such reads cancel.  A result that depends on
            # the value chosen here is not conclusive.
            self.root.oob = True
            return Obj('oob', canon(l), int(n), self.W.salt)
        v = l[int(n)]
        if v is BAD or v is NAN: raise Undefined('element')
        return v
    def o_slice(self, t, env, s, a, b):
        l = self.seq(self(s, env)); x, y = self.num(self(a, env)), self.num(self(b, env))
        if x < 0 or y < x or y > len(l): raise Undefined('slice')
        return l[int(x):int(y)]
    def o_rev(self, t, env, s): return self.seq(self(s, env))[::-1]
    def o_erase1(self, t, env, s, i):
        l = list(self.seq(self(s, env))); n = self.num(self(i, env))
        if n < 0 or n >= len(l): raise Undefined('erase')
        del l[int(n)]; return l
    def o_upd(self, t, env, s, i, v):
        l = list(self.seq(self(s, env))); n = self.num(self(i, env))
        if n < 0 or n >= len(l): raise Undefined('upd')
        l[int(n)] = self.elem(v, env); return l
    def o_resize(self, t, env, s, n, v):
        l = list(self.seq(self(s, env))); m = int(self.num(self(n, env)))
        if m < 0 or m > 200: raise Undefined('resize')
        return l[:m] + [self.elem(v, env)] * (m - len(l))
    def o_sort(self, t, env, s, cmp_):
        l = self.seq(self(s, env))
        if any(x is BAD or x is NAN for x in l): raise Undefined('sort')
        names = sorted({x.args[0] for x in symsof(cmp_) if isinstance(x.args[0], str) and x.args[0].startswith(('$c0', '$c1'))})
        if len({n[:3] for n in names}) != 2: raise Undefined('cmp')
        def less(a, b):
            sy = dict(self.syms)
            for n in names: sy[n] = a if n.startswith('$c0') else b
            e = Ev(self.P, self.I, self.W, sy); e.root = self.root
            return e.bool(e(cmp_, {}))
        return sorted(l, key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else (1 if less(b, a) else 0)))
    def o_seqeq(self, t, env, x, y): return canon(self.seq(self(x, env))) == canon(self.seq(self(y, env)))
    def o_seqlt(self, t, env, x, y):
        a, b = self.seq(self(x, env)), self.seq(self(y, env))
        try: return a < b
        except TypeError: raise Undefined('seqlt')
    # ------------------------------------------------------------------ maps
    def o_mempty(self, t, env): return Map({})
    def o_mput(self, t, env, m, k, v):
        mm = self.map(self(m, env)); kk = self(k, env); c = ckey(kk)
        d = dict(mm.d); d[c] = (d[c][0] if c in d else kk, self.elem(v, env))
        return Map(d)
    def o_mdel(self, t, env, m, k):
        mm = self.map(self(m, env)); d = dict(mm.d); d.pop(ckey(self(k, env)), None)
        return Map(d)
    def o_has(self, t, env, m, k): return ckey(self(k, env)) in self.map(self(m, env)).d
    def o_mget(self, t, env, m, k):
        d = self.map(self(m, env)).d; c = ckey(self(k, env))
        if c not in d:
            # decision diagrams test such values also where the key is absent and the result does not depend on them
            self.root.oob = True
            return Obj('oob', c, self.W.salt)
        if d[c][1] is BAD: raise Undefined('key')
        return d[c][1]
    def o_msize(self, t, env, m): return Fraction(len(self.map(self(m, env)).d))
    def o_symkey(self, t, env, x, y):
        a, b = sorted((self.num(self(x, env)), self.num(self(y, env))))
        return SymKey((a, b))
    def o_keq(self, t, env, x, y): return ckey(self(x, env)) == ckey(self(y, env))
    def o_mapeq(self, t, env, x, y):
        a, b = self.map(self(x, env)), self.map(self(y, env))
        return {k: canon(v[1]) for k, v in a.d.items()} == {k: canon(v[1]) for k, v in b.d.items()}
    def o_entries(self, t, env, m):
        return [Rec('std::pair', {'pair::first': k, 'pair::second': v}) for c, (k, v) in sorted(self.map(self(m, env)).d.items(), key=lambda x: repr(x[0]))]
    def o_elements(self, t, env, m):
        return [k for c, (k, v) in sorted(self.map(self(m, env)).d.items(), key=lambda x: repr(x[0]))]
    def keynum(self, k): return k if isinstance(k, (int, Fraction)) else None
    def o_allless(self, t, env, m, k): raise Undefined('key order')
    def o_allgreater(self, t, env, m, k): raise Undefined('key order')
    def o_keygap(self, t, env, kind, m, k): raise Undefined('key order')
    def o_keyaway(self, t, env, kind, m, k): raise Undefined('key order')
    # ------------------------------------------------------------------ loops
    def o_lout(self, t, env, loop, i):
        h, N, C, inits, nxt, kinds = loop.args
        e0 = {x: env[x] for x in loop.fs}
        key = ('loop', loop, tuple(self.tok(env[x]) for x in order(loop)))
        r = self.memo.get(key)
        if r is None:
            slots = [tm.SLOT(h, j, kinds[j]) for j in range(len(inits))]
            cur = [self.elem(x, env) for x in inits]
            n = None if N.op == 'unbounded' else self.num(self(N, env))
            if n is not None and n < 0: raise Undefined('range')
            k = 0
            while n is None or k < n:
                if k > 150: raise Undefined('steps')
                e = dict(env); e[tm.BV(h)] = Fraction(k)
                for s, v in zip(slots, cur): e[s] = v
                if not self.bool(self(C, e)): break
                cur = [self.elem(x, e) for x in nxt]
                k += 1
            r = self.memo[key] = cur
        v = r[i]
        if v is BAD or v is NAN: raise Undefined('slot')
        return v
    # ------------------------------------------------------------------ specification functions, outside calls
    def o_call(self, t, env, n, *a):
        vals = [self(x, env) for x in a]
        if n.startswith('ol:'):
            m, _, part = n[3:].partition('#')
            import run
            r = run.olterms(self.P, self.P.funcs[m]) if m in self.P.funcs else None
            term = r.get('#' + part if part else '') if r else None
            if term is None:
                if r and part.startswith('throws'): return False
                f = self.P.funcs.get(m)
                if r is not None or f is None: raise Undefined('call')
                return self.W.fixed(f, part, hsh('ol', m, part, self.W.seed, tuple(canon(known(v)) for v in vals)))
            return self.sub(vals)(term, {})
        fn = (self.P.byname.get(n) or [None])[0]
        if fn is None or n in ('opq::fx', 'opq::fy') or fn.get('body') is None:
            return Obj('call', n, tuple(canon(v) for v in vals))
        term = opqterm(self.P, n, fn)
        if term is None: raise Undefined('call')
        return self.sub(vals)(term, {})
    def tri(self, t, env, count=False):
        f, call = t.args
        h = hsh('tri', self.W.seed, canon(self(call, env)))
        r = random.Random(h)
        np_, tris, edges = triangulation(r)
        cnt = lambda x, y: sum(1 for a in tris if x in a and y in a)
        F = Fraction
        out = {'pointlist': [F(r.randint(-2, 4)) for _ in range(2 * np_)], 'pointmarkerlist': [F(r.randint(0, 2)) for _ in range(np_)],
               'trianglelist': [F(i) for a in tris for i in a], 'edgelist': [F(i) for e in edges for i in e],
               'edgemarkerlist': [F(1 if cnt(*e) == 1 else 0) for e in edges]}
        n = {'numberofpoints': np_, 'numberoftriangles': len(tris), 'numberofedges': len(edges), 'numberofsegments': 0, 'numberofcorners': 3}
        if count:
            if f in n: return n[f]
            if f in out: return len(out[f])
            raise Undefined('triangle output')
        if f not in out: raise Undefined('triangle output')
        return out[f]
    def o_triout(self, t, env, *a): return self.tri(t, env)
    def o_clipres(self, t, env, *a):
        h = random.Random(hsh('clip', self.W.seed, tuple(canon(self(x, env)) for x in a)))
        return [[Rec('ClipperLib::IntPoint', {'ClipperLib::IntPoint::X': Fraction(h.randint(-9, 30)), 'ClipperLib::IntPoint::Y': Fraction(h.randint(-9, 30))})
                 for _ in range(h.randint(3, 5))] for _ in range(h.choice([0, 1, 1, 2]))]
    def o_draw(self, t, env, *a): return Fraction(hsh('draw', self.W.seed, tuple(canon(self(x, env)) for x in a)) % 97, 96)

def symsof(t):
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or id(x) in seen: continue
        seen.add(id(x))
        if x.op == 'sym': out.add(x)
        st.extend(x.args)
    return out

_opq = {}
def opqterm(P, n, fn):
    if n not in _opq:
        import run
        try:
            o = run.evaluate(P, fn, {'use': None})
            _opq[n] = o.comp.get('result')
        except Exception: _opq[n] = None
    return _opq[n]

def same(x, y):
    """True, False, or None when not comparable"""
    if x is BAD or y is BAD: return None
    if x is NAN or y is NAN: return False if isinstance(x, (int, Fraction)) and not isinstance(x, bool) or isinstance(y, (int, Fraction)) and not isinstance(y, bool) else None
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y) if isinstance(x, bool) and isinstance(y, bool) else None
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return abs(x - y) <= Fraction(1, 10**6) * (1 + max(abs(x), abs(y)))
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y): return False
        r = True
        for a, b in zip(x, y):
            s = same(a, b)
            if s is False: return False
            if s is None: r = None
        return r
    if isinstance(x, Rec) and isinstance(y, Rec):
        if set(x.f) != set(y.f): return None
        r = True
        for k in x.f:
            s = same(x.f[k], y.f[k])
            if s is False: return False
            if s is None: r = None
        return r
    if isinstance(x, Map) and isinstance(y, Map):
        if set(x.d) != set(y.d): return False
        r = True
        for k in x.d:
            s = same(x.d[k][1], y.d[k][1])
            if s is False: return False
            if s is None: r = None
        return r
    if x is None and y is None: return True
    if x is None or y is None: return False
    if isinstance(x, Obj) and isinstance(y, Obj): return x == y
    return None

class Both(object):
    """evaluates pairs of graphs in one world; what is out of range is given two different values"""
    def __init__(self, P, I, W):
        self.P = P; self.I = I; self.W = W
        W.salt = 0
        self.e = [Ev(P, I, W)]
    def one(self, e, x):
        e.steps = 0
        return e(x, {})
    def __call__(self, x, y):
        self.W.salt = 0
        e = self.e[0]
        a = self.one(e, x)
        b = self.one(e, y) if y is not None else None
        if e.oob:
            for salt in range(1, 7 if y is None or same(a, b) is False else 2):
                self.W.salt = salt
                if len(self.e) == salt: self.e.append(Ev(self.P, self.I, self.W))
                e = self.e[salt]
                try:
                    if same(a, self.one(e, x)) is not True or (y is not None and same(b, self.one(e, y)) is not True): raise Undefined('out of range')
                finally: self.W.salt = 0
        return a, b

def tests(t):
    """(polynomial, cut) of every comparison in t whose free variables are index variables"""
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or id(x) in seen: continue
        seen.add(id(x))
        if x.op == 'ite' and x.args[0].op != 'tb' and all(v.op == 'bv' for v in x.args[0].fs):
            out += [(x.args[0].args[0], c) for c, e in x.args[1]]
        st.extend(x.args)
    return out

def leaves(v, set_, out, d=0):
    if isinstance(v, Int): out.append((v, set_, True))
    elif isinstance(v, Fraction): out.append((v, set_, False))
    elif isinstance(v, list):
        for i in range(len(v)): leaves(v[i], functools.partial(v.__setitem__, i), out, d + 1)
    elif isinstance(v, Rec):
        for k in v.f: leaves(v.f[k], functools.partial(v.f.__setitem__, k), out, d + 1)

def to_boundary(P, I, W, ts, r):
    """moves one leaf so that one of the comparisons is exactly at its bound"""
    for _ in range(4):
        p, c = r.choice(ts)
        env = {v: Fraction(r.randrange(W.N) if W.N else 0) for v in p.fs}
        out = []
        for k in W.syms: leaves(W.syms[k], functools.partial(W.syms.__setitem__, k), out)
        r.shuffle(out)
        for v, set_, isint in out[:12]:
            def f(z):
                set_(z)
                e = Ev(P, I, W); e.LIMIT = 2000
                return e.num(e(p, env)) - c
            try: a, b, d = f(v), f(v + 1), f(v + 2)
            except Undefined: set_(v); continue
            if b == a or d - b != b - a: set_(v); continue
            z = v - a / (b - a)
            if isint:
                if z.denominator != 1: set_(v); continue
                z = Int(z)
            set_(z)
            return True
    return False

def fixedcalls(t):
    """the library functions that a graph takes as fixed functions"""
    out = set(); seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x); continue
        if not isinstance(x, T) or id(x) in seen: continue
        seen.add(id(x))
        if x.op == 'call' and x.args[0].startswith('ol:'): out.add(x.args[0].split('#')[0])
        todo.extend(x.args)
    return out

def separates(P, I, params, x, y, seconds=20.0, rounds=3000, stats=None, history=False):
    """an interpretation of the leaves under which the graphs x and y differ (y None: x must be true), or None"""
    st = {}
    r = separates_any(P, I, params, [(x, y)], seconds, rounds, st, history)
    if stats is not None: stats.update(rounds=st['rounds'], conclusive=st['conclusive'][0], undefined=st['undefined'])
    return r[1] if r else None

def separates_any(P, I, params, pairs, seconds=20.0, rounds=3000, stats=None, history=False):
    """(which of the pairs, an interpretation of the leaves under which its graphs differ), or None"""
    t0 = time.time()
    n = [0] * len(pairs); undef = {}; seed = -1; found = None
    ts = sorted({t for x, y in pairs for z in (x, y) if z is not None for t in tests(z)}, key=lambda t: (t[0].key, t[1]))
    for seed in range(rounds):
        if time.time() - t0 > seconds: break
        W = None
        try:
            W = World(I, params, seed, history)
            if ts and seed % 2:
                r = random.Random(seed)
                to_boundary(P, I, W, ts, r)
                if r.random() < 0.4: to_boundary(P, I, W, ts, r)
        except Undefined as ex:
            undef[ex.args[0]] = undef.get(ex.args[0], 0) + 1
            continue
        except RecursionError: continue
        ev = Both(P, I, W)
        for i, (x, y) in enumerate(pairs):
            if i and time.time() - t0 > seconds: break
            try: a, b = ev(x, y)
            except Undefined as ex:
                undef[ex.args[0]] = undef.get(ex.args[0], 0) + 1
                continue
            except RecursionError: continue
            n[i] += 1
            if y is None: s = False if a is False else True
            else: s = same(a, b)
            if s is False and W.guessed and y is not None and fixedcalls(x) & W.guessed != fixedcalls(y) & W.guessed:
                undef['boundaries'] = undef.get('boundaries', 0) + 1; n[i] -= 1; continue
            if s is False:
                found = i, {'seed': seed, 'leaves': repr({k: v for k, v in W.syms.items()})[:1500], 'tolerance': str(W.tol), 'source': repr(a)[:600], 'reference': repr(b)[:600]}
                break
        if found: break
    if stats is not None: stats.update(rounds=seed + 1, conclusive=n, undefined=undef)
    return found
