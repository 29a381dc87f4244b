"""Value-flow analysis over the extracted, type-resolved syntax trees: computes, for a function, the
gated value graph of everything it returns, throws, writes through references and emits.  Branches are
joined with decision diagrams, loops are summarised (closed forms, folds, searches) or kept as canonical
mu-terms.  Nothing is executed and no path is handed to a solver."""
import re
from terms import *
import terms as tm

class Unsupported(Exception):
    pass

VOID = mk('void')
NULL = mk('null')
NONE = mk('none')

# ------------------------------------------------------------------ types
def strip(t):
    t = t.strip()
    while True:
        if t.startswith('const '): t = t[6:]
        elif t.startswith('class '): t = t[6:]
        elif t.startswith('struct '): t = t[7:]
        elif t.endswith('&'): t = t[:-1].strip()
        elif t.endswith(' const'): t = t[:-6]
        else: return t

def targs(t):
    i = t.find('<')
    if i < 0: return []
    depth = 0; cur = ''; out = []
    for c in t[i + 1:t.rfind('>')]:
        if c in '<(': depth += 1
        if c in '>)': depth -= 1
        if c == ',' and depth == 0:
            out.append(strip(cur)); cur = ''
        else: cur += c
    if cur.strip(): out.append(strip(cur))
    return out

def isvec(t): return t.startswith('std::vector<')
def isstr(t): return t.startswith('std::basic_string<') or t == 'std::string' or t.startswith('std::__cxx11::basic_string<')
def ismap(t): return t.startswith('std::map<') or t.startswith('std::unordered_map<')
def isset(t): return t.startswith('std::set<') or t.startswith('std::unordered_set<')
def ispair(t): return t.startswith('std::pair<')
def isarr(t): return t.startswith('std::array<')
def isptr(t): return t.endswith('*')
def isvit(t): return '__normal_iterator<' in t and not t.startswith('std::regex_') and not t.startswith('std::sub_match')
def isnum(t): return t in tm.NUMT or t in tm.ENUMT
def isint(t): return t in tm.INTT or t in tm.ENUMT or t == 'bool'
def elty(t):
    if isvec(t) or isarr(t) or t.startswith('std::initializer_list<') or t.startswith('std::list<') or t.startswith('std::deque<'): return targs(t)[0]
    if isstr(t): return 'char'
    if t.endswith(']'): return t[:t.rfind('[')].strip()
    if isptr(t): return strip(t[:-1])
    if isset(t): return targs(t)[0]
    if ismap(t):
        a = targs(t)
        return 'std::pair<%s, %s>' % (a[0], a[1])
    return '?'
def isseqty(t):
    return isvec(t) or isstr(t) or isarr(t) or t.endswith(']') or t.startswith('std::initializer_list<') or t.startswith('std::list<') or t.startswith('std::deque<')

tm.RECFIELDS['$vit'] = (('$vit::c', '$ptr'), ('$vit::i', 'long'))
STREAM = (('$s::path', '$seq'), ('$s::buf', '$seq'), ('$s::fixed', 'bool'), ('$s::prec', 'int'), ('$s::open', 'bool'))
tm.RECFIELDS['$ostream'] = STREAM
tm.RECFIELDS['$istream'] = (('$i::path', '$seq'), ('$i::pos', 'int'), ('$i::open', 'bool'), ('$i::ok', 'bool'))
tm.RECFIELDS['$tokit'] = (('$t::seq', '$seq'), ('$t::i', 'int'))
tm.RECFIELDS['$clipper'] = (('$c::subj', '$seq'), ('$c::clip', '$seq'))
def ispairrec(t): return ispair(t)
def pairfields(t):
    a = targs(t)
    return (('pair::first', a[0]), ('pair::second', a[1]))

class State(object):
    __slots__ = ('store', 'guard')
    def __init__(self, store, guard):
        self.store = store; self.guard = guard
    def copy(self): return State(dict(self.store), self.guard)
    @property
    def dead(self): return self.guard is FALSE

class Ctx(object):
    def __init__(self, fn, this=None):
        self.fn = fn; self.this = this
        self.env = {}
        self.returns = []; self.throws = []
        self.breaks = None; self.continues = None
        self.streams = []
        self.locals = set()

class Closure(object):
    def __init__(self, m, env, this): self.m = m; self.env = env; self.this = this

def closed(v):
    """a value that is the same in every run (the address of the one configuration is)"""
    seen = set(); todo = [v]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple): todo.extend(t); continue
        if not isinstance(t, T) or id(t) in seen: continue
        seen.add(id(t))
        if t.op in ('gsym', 'draw', 'dist') or t.op == 'sym' and t.args[0] != '$config': return False
        if t.op in ('deref', 'fld') and 'deref' in (t.op, getattr(t.args[-1], 'op', '')): return False
        todo.extend(t.args)
    return True

class Interp(object):
    MAXUNROLL = 12
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.S = State({}, TRUE)
        self.ctx = None
        self.btype = {}
        self.nbase = 0
        self.depth = 0
        self.sites = []        # (file, line, what) visited calls, for the evidence
        self.funcs_seen = set()
        self.contracts_used = set()
        self.outlined = set()
        self.unknown = {}
        self.closures = {}
        self.heap = {}
        self.blocks = []       # memory taken by hand: (base, what)
        self.line = 0
        self.events = []
        self.looplevel = 0
        self.steps = 0
        self.loops = 0

    # ------------------------------------------------------------ types / records
    def fields(self, t):
        """flattened (name, type) list of a class type, or None"""
        r = tm.RECFIELDS.get(t)
        if r is not None: return r
        if ispair(t):
            r = pairfields(t)
        elif t in self.prog.records:
            r = tuple(self.prog.flatfields(t))
        elif t == 'ClipperLib::IntPoint':
            r = (('ClipperLib::IntPoint::X', 'long long'), ('ClipperLib::IntPoint::Y', 'long long'))
        elif t == 'triangulateio':
            r = None
        if r is not None:
            tm.RECFIELDS[t] = r
            if not ispair(t):
                for f, ty in r: tm.FIELDTYPES[f] = ty
        return r

    def newbase(self, ty, v=None):
        self.nbase += 1
        b = self.nbase
        self.btype[b] = ty
        if v is not None: self.S.store[b] = v
        return b

    def loc(self, b, *path): return mk('ptr', b, tuple(path))

    def symval(self, ty, a):
        ty = strip(ty)
        self.fields(ty)
        return tm.typed(ty, a)

    def default(self, ty):
        """value of a default-initialised object"""
        ty = strip(ty)
        if isseqty(ty): return NIL
        if ismap(ty) or isset(ty): return mk('mempty')
        if ty.startswith('std::basic_ofstream') or 'stringstream' in ty: return self.mkstream(NIL)
        if ty.startswith('std::basic_ifstream'): return mkrec('$istream', [('$i::path', NIL), ('$i::pos', ZERO), ('$i::open', FALSE), ('$i::ok', TRUE)])
        if ty == 'ClipperLib::Clipper': return mkrec('$clipper', [('$c::subj', NIL), ('$c::clip', NIL)])
        if isnum(ty) or ty == 'bool' or isptr(ty): return self.symval(ty, mk('undef', 'uninit', ty))
        fs = self.fields(ty)
        if fs is not None:
            if ispair(ty): return mkrec(ty, [(f, self.zero(t)) for f, t in fs])
            return mkrec(ty, [(f, self.default(t)) for f, t in fs])
        if ty.startswith('std::uniform') or ty.startswith('std::mersenne') or 'random' in ty or ty.startswith('std::linear'):
            return mk('dist', ty)
        return mk('dflt', ty)

    def zero(self, ty):
        ty = strip(ty)
        if isnum(ty): return ZERO
        if ty == 'bool': return FALSE
        if isptr(ty): return NULL
        return self.default(ty)

    def mkstream(self, path, openf=FALSE):
        return mkrec('$ostream', [('$s::path', path), ('$s::buf', NIL), ('$s::fixed', FALSE), ('$s::prec', const(6)), ('$s::open', openf)])

    # ------------------------------------------------------------ memory
    def baseof(self, ptr):
        if ptr.op == 'ptr': return ptr.args[0], ptr.args[1]
        return ('D', ptr), ()

    def getbase(self, b, ty='?'):
        v = self.S.store.get(b)
        if v is None:
            if isinstance(b, tuple) and b[0] == 'D':
                v = self.symval(ty, mk('deref', b[1]))
                self.btype.setdefault(b, ty)
            elif isinstance(b, tuple) and b[0] == 'G':
                v = self.globalinit(b[1])
            else:
                v = mk('undef', 'nobase')
            self.S.store[b] = v
        return v

    def ptrty(self, ptr, ty): return ty

    def read(self, ptr, ty='?'):
        if ptr.op == 'ite': return expand(lambda p: self.read(p, ty), (ptr,))
        if ptr.op == 'null': return self.symval(ty, mk('opq', 'nullread'))
        b, path = self.baseof(ptr)
        v = self.getbase(b, ty if not path else '?')
        return self.rpath(v, path)

    def rpath(self, v, path):
        for p in path:
            if p[0] == 'f': v = fld(p[1], p[2], v)
            elif p[0] == 'i': v = sel(v, p[1], p[2])
            elif p[0] == 'm': v = self.mget(v, p[1], p[2])
        return v

    def write(self, ptr, val, ty='?'):
        if ptr.op == 'ite':
            # weak update: each target keeps its value when not selected
            leaves = []
            def coll(p):
                if p.op == 'ite':
                    for k in p.args[2]: coll(k)
                elif p not in leaves: leaves.append(p)
            coll(ptr)
            for lf in leaves:
                cond = expand(lambda p: B(p is lf), (ptr,))
                old = self.read(lf, ty)
                self.write(lf, ite(cond, val, old), ty)
            return
        if ptr.op == 'null': return
        b, path = self.baseof(ptr)
        if not path:
            self.S.store[b] = val
            return
        old = self.getbase(b)
        self.S.store[b] = self.wpath(old, path, val, self.btype.get(b, '?'))

    def wpath(self, v, path, val, ty):
        if not path: return val
        p = path[0]
        if v.op == 'ite' and p[0] == 'f' and len(path) >= 1:
            # distribute a field write over a diagram of records
            return expand(lambda x: self.wpath(x, path, val, ty), (v,)) if val.op != 'ite' else \
                self._wdist(v, path, val, ty)
        if p[0] == 'f':
            old = fld(p[1], p[2], v)
            nv = self.wpath(old, path[1:], val, p[2])
            cls = v.args[0] if v.op == 'rec' else ty
            if v.op != 'rec' and (cls not in tm.RECFIELDS or not any(f == p[1] for f, _ in tm.RECFIELDS[cls])):
                cls = self.clsof(p[1], cls)
            return setfld(p[1], nv, v, cls)
        if p[0] == 'i':
            if len(path) == 1: return upd(v, p[1], val)
            old = sel(v, p[1], p[2])
            nv = self.wpath(old, path[1:], val, p[2])
            return upd(v, p[1], nv)
        if p[0] == 'm':
            if len(path) == 1: return self.mput(v, p[1], val)
            old = self.mget(v, p[1], p[2])
            return self.mput(v, p[1], self.wpath(old, path[1:], val, p[2]))
        raise Unsupported('path')

    def _wdist(self, v, path, val, ty):
        # v is a DD of records: make it one record of DDs through eta, then write
        cls = ty
        for lf in self.leaves(v):
            if lf.op == 'rec': cls = lf.args[0]; break
        if cls not in tm.RECFIELDS or not any(f == path[0][1] for f, _ in tm.RECFIELDS[cls]): cls = self.clsof(path[0][1], cls)
        r = mk('rec', cls, tuple((f, fld(f, t, v)) for f, t in tm.RECFIELDS[cls]))
        return self.wpath(r, path, val, cls)

    def leaves(self, v):
        if v.op == 'ite':
            for k in v.args[2]:
                for x in self.leaves(k): yield x
        else: yield v

    def clsof(self, f, dflt):
        if self.fields(dflt) and any(n == f for n, _ in self.fields(dflt)): return dflt
        c = f.rsplit('::', 1)[0]
        self.fields(c)
        return c

    # ------------------------------------------------------------ maps
    keyint = True      # the map in use has integer keys
    def keq(self, a, b):
        if a is b: return TRUE
        if a.op in ('poly',) and b.op in ('poly',): return eqn(a, b, self.keyint)
        return tm.keq(a, b)

    def contains(self, m, k):
        def f(m, k):
            if m.op == 'mempty': return FALSE
            if m.op == 'mput': return lor(self.keq(m.args[1], k), f2(m.args[0], k))
            if m.op == 'mdel': return land(lnot(self.keq(m.args[1], k)), f2(m.args[0], k))
            return batom(mk('has', m, k))
        def f2(m, k): return tm.lift_ite(f, m, k)
        return f2(m, k)

    def mget(self, m, k, ty):
        def f(m, k):
            if m.op == 'mput': return ite(self.keq(m.args[1], k), m.args[2], f2(m.args[0], k))
            if m.op == 'mdel': return f2(m.args[0], k)
            if m.op == 'mempty': return self.symval(ty, mk('undef', 'nokey'))
            return self.symval(ty, mk('mget', m, k))
        def f2(m, k): return tm.lift_ite(f, m, k)
        return f2(m, k)

    def mput(self, m, k, v):
        def f(m, k, v):
            if m.op == 'mput' and m.args[1] is k: return mk('mput', m.args[0], k, v)
            return mk('mput', m, k, v)
        return tm.lift_ite(f, m, k, v)

    def msize(self, m):
        def f(m):
            if m.op == 'mempty': return ZERO
            if m.op == 'mput': return add(self.msize(m.args[0]), ite(self.contains(m.args[0], m.args[1]), ZERO, ONE))
            return num(mk('msize', m))
        return expand(f, (m,))

    # ------------------------------------------------------------ globals
    def globalinit(self, g):
        G = self.prog.globals.get(g)
        if g.endswith('#init'): return FALSE
        if G is None: return mk('opq', 'global', g)
        ty = strip(G['t'])
        if self.dynamic(g):
            if not getattr(self, 'firstcall', False): return self.symval(ty, mk('gsym', g))
            return self.zero(ty) if G.get('staticlocal') else self.atstart(g)
        if G.get('const') or not self.prog.global_modified(g) or getattr(self, 'firstcall', False):
            if G.get('init'):
                save = self.ctx
                self.ctx = Ctx(None)
                try: return self.rv(G['init'])
                finally: self.ctx = save
            return self.zero(ty)
        return self.symval(ty, mk('gsym', g))

    def dynamic(self, g):
        """is a static variable given its first value at run time, by what may differ from one run to another"""
        G = self.prog.globals.get(g)
        if G is None: return False
        if 'dyn' in G: return G['dyn']
        G['dyn'] = False
        if not G.get('init') or re.search(r'random|_engine|basic_o?i?stream', G['t']): return False
        save = self.ctx, self.S, getattr(self, 'firstcall', False)
        self.ctx = Ctx(None); self.S = State({}, TRUE)
        try: G['dyn'] = not closed(self.rv(G['init']))
        except Unsupported as ex: G['dyn'] = str(ex).startswith('unbound')
        except Exception: pass
        finally: self.ctx, self.S, self.firstcall = save
        return G['dyn']
    def atstart(self, g):
        """the value of a variable initialised before the program starts, when every setting is as it is by default"""
        save = self.ctx, self.S
        self.ctx = Ctx(None); self.S = State({}, TRUE)
        try:
            p = mk('sym', '$config')
            dc = self.prog.defctor('DelynoiConfig')
            if dc:
                self.S.store[('D', p)] = self.default('DelynoiConfig'); self.btype.setdefault(('D', p), 'DelynoiConfig')
                self.callfn(dc, p, [], ctor=True)
            return self.rv(self.prog.globals[g]['init'])
        finally: self.ctx, self.S = save

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        """value of an expression (prvalue, or the value read from an lvalue)"""
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expr ' + k + ' ' + str(e.get('w')))
        if 'l' in e: self.line = e['l']
        self.steps += 1
        if self.steps > self.opts.get('maxsteps', 400000): raise TooBig('steps')
        return m(e)

    def isl(self, e):
        """is the expression an lvalue designating storage"""
        k = e['k']
        if k in ('ref', 'gref', 'mem', 'sub', 'this'): return k != 'this'
        if k == 'un': return e['op'] in ('*', '++', '--')
        if k == 'bin': return e['op'].endswith('=') and e['op'] not in ('==', '<=', '>=', '!=') or (e['op'] == ',' and self.isl(e['b']))
        if k == 'cast': return e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'LValueBitCast') and self.isl(e['e'])
        if k == 'cond': return self.isl(e['a']) and self.isl(e['b'])
        if k in ('call', 'mcall', 'opcall'): return bool(e.get('f', {}).get('rref'))
        if k == 'tmp': return True
        return False

    def lv(self, e):
        """location of an expression; materialises temporaries"""
        k = e['k']
        if 'l' in e: self.line = e['l']
        if k == 'ref':
            p = self.ctx.env.get(e['d'])
            if p is None: raise Unsupported('unbound ' + e['n'])
            return p
        if k == 'gref':
            if e.get('static') and self.ctx and e.get('d') in self.ctx.env: return self.ctx.env[e['d']]
            return self.loc(('G', e['g']))
        if k == 'mem':
            b = e['b']
            bp = self.rv(b) if e['arrow'] else self.lv(b)
            return self.field(bp, e['f'], e['t'])
        if k == 'sub':
            bt = strip(e['b']['t'])
            i = self.rv(e['i'])
            if bt.endswith(']'): p = self.lv(e['b'])
            else: p = self.rv(e['b'])
            return self.index(p, i, strip(e['t']))
        if k == 'un' and e['op'] == '*': return self.rv(e['e'])
        if k == 'un' and e['op'] in ('++', '--'):
            self.rv(e)
            return self.lv(e['e'])
        if k == 'bin' and e['op'] == ',':
            self.rv(e['a']); return self.lv(e['b'])
        if k == 'bin' and self.isl(e):
            self.rv(e)
            return self.lv(e['a'])
        if k == 'cast' and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'LValueBitCast') and self.isl(e['e']): return self.lv(e['e'])
        if k == 'cond' and self.isl(e):
            c = self.rv(e['c'])
            if c is TRUE: return self.lv(e['a'])
            if c is FALSE: return self.lv(e['b'])
            return ite(c, self.lv(e['a']), self.lv(e['b']))
        if k in ('call', 'mcall', 'opcall'):
            r = self.call(e, wantloc=True)
            if e.get('f', {}).get('rref'):
                return r
            return self.loc(self.newbase(strip(e['t']), r))
        if k == 'tmp':
            if self.isl(e['e']) and e['e']['k'] not in ('call', 'mcall', 'opcall'): return self.lv(e['e'])
            return self.loc(self.newbase(strip(e['t']), self.rv(e['e'])))
        return self.loc(self.newbase(strip(e['t']), self.rv(e)))

    def field(self, p, f, ty):
        ty = strip(ty)
        if '::pair<' in f or f.startswith('std::pair<') or 'std::_' in f and f.endswith(('::first', '::second')):
            f = 'pair::' + f.rsplit('::', 1)[1]
        if p.op == 'ite': return expand(lambda x: self.field(x, f, ty), (p,))
        if p.op == 'mit': return self.mitfield(p, f, ty)
        if p.op == 'ptr': return mk('ptr', p.args[0], p.args[1] + (('f', f, ty),))
        if p.op == 'null': return mk('ptr', ('D', mk('opq', 'null')), (('f', f, ty),))
        return mk('ptr', ('D', p), (('f', f, ty),))

    def index(self, p, i, ty):
        def f(x, i):
            if x.op == 'ptr': return mk('ptr', x.args[0], x.args[1] + (('i', i, ty),))
            return mk('ptr', ('D', x), (('i', i, ty),))
        return expand(f, (p, i))

    def e_int(self, e): return const(int(e['v']))
    def e_float(self, e):
        s = e['v'].rstrip('fFlL').replace("'", '')
        try: return const(Fraction(s))
        except ValueError: return const(Fraction(e['a']))
    def e_bool(self, e): return B(e['v'])
    def e_char(self, e): return const(e['v'])
    def e_str(self, e): return strlit(e['v'])
    def e_null(self, e): return NULL
    def e_this(self, e): return self.ctx.this
    def e_zero(self, e): return self.zero(e['t'])
    def e_enum(self, e): return const(e['v'])
    def e_fref(self, e): return mk('fref', e['f']['m'] or e['f']['n'], e['f']['n'])
    def e_sizeof(self, e):
        return const(e.get('v', 1))
    def e_ref(self, e): return self.read(self.lv(e), strip(e['t']))
    def e_gref(self, e): return self.read(self.lv(e), strip(e['t']))
    def e_mem(self, e):
        if not e['arrow'] and not self.isl(e['b']):
            v = self.rv(e['b'])
            f = e['f']
            if f.startswith('std::pair<') or f.endswith(('::first', '::second')) and 'std::' in f: f = 'pair::' + f.rsplit('::', 1)[1]
            return fld(f, strip(e['t']), v)
        return self.read(self.lv(e), strip(e['t']))
    def e_sub(self, e): return self.read(self.lv(e), strip(e['t']))
    def e_tmp(self, e): return self.rv(e['e'])
    def e_stdinit(self, e): return self.rv(e['e'])
    def e_initlist(self, e):
        t = strip(e['t'])
        if self.fields(t) and not isseqty(t):
            fs = self.fields(t)
            vs = [self.rv(x) for x in e['a']]
            return mkrec(t, [(f, vs[i] if i < len(vs) else self.zero(ty)) for i, (f, ty) in enumerate(fs)])
        if (isnum(t) or t == 'bool' or isptr(t)):
            return self.rv(e['a'][0]) if e['a'] else self.zero(t)
        return lit(*[self.rv(x) for x in e['a']])
    def e_delete(self, e):
        self.rv(e['e']); return VOID
    def e_unk(self, e): raise Unsupported(e.get('w', '?'))
    def e_lambda(self, e):
        env = {}
        for c in e['caps']:
            if c.get('this'): continue
            if c.get('ref'): env[c['d']] = self.ctx.env[c['d']]
            else:
                v = self.read(self.ctx.env[c['d']])
                env[c['d']] = self.loc(self.newbase(self.tyofptr(self.ctx.env[c['d']]), v))
        self.nbase += 1
        cid = self.nbase
        self.closures[cid] = Closure(e['m'], env, self.ctx.this)
        return mk('closure', cid)
    def tyofptr(self, p):
        if p.op == 'ptr' and not p.args[1]: return self.btype.get(p.args[0], '?')
        if p.op == 'ptr': return p.args[1][-1][2]
        return '?'

    def e_new(self, e):
        at = strip(e['at'])
        if e.get('n'):
            n = self.rv(e['n'])
            b = self.newbase(at + '[]', mk('cat', (mk('uninit', n),)) if n.op == 'poly' else mk('opq', 'newarr', n))
            return self.loc(b)
        b = self.newbase(at, self.default(at))
        p = self.loc(b)
        if e.get('e'): self.initobj(p, at, e['e'])
        return p

    def e_throw(self, e):
        et = strip(e.get('et', '?'))
        if e.get('e'):
            v = self.rv(e['e'])
        self.throw(TRUE, et)
        return VOID

    def throw(self, cond, et):
        g = land(self.S.guard, cond)
        if g is FALSE: return
        self.ctx.throws.append((g, dict(self.S.store), et, (self.ctx.fn['file'] if self.ctx.fn else '?', self.line)))
        self.S.guard = land(self.S.guard, lnot(cond))

    def truth(self, v): return v

    def e_cond(self, e):
        c = self.rv(e['c'])
        if c is TRUE: return self.rv(e['a'])
        if c is FALSE: return self.rv(e['b'])
        return self.branch(c, lambda: self.rv(e['a']), lambda: self.rv(e['b']))

    def branch(self, c, fa, fb):
        S0 = self.S
        S1 = State(dict(S0.store), land(S0.guard, c)); S2 = State(dict(S0.store), land(S0.guard, lnot(c)))
        self.S = S1; a = fa(); S1 = self.S
        self.S = S2; b = fb(); S2 = self.S
        self.S = S0
        if S1.dead and not S2.dead:
            self.S.store = S2.store; self.S.guard = S2.guard; return b
        if S2.dead and not S1.dead:
            self.S.store = S1.store; self.S.guard = S1.guard; return a
        self.S.store = self.merge(c, S1.store, S2.store)
        self.S.guard = lor(S1.guard, S2.guard)
        return ite(c, a, b) if a is not b else a

    def merge(self, c, s1, s2):
        out = dict(s1)
        for k in s1:
            if type(k) is tuple and k[0] == 'G' and k[1].endswith('#init') and k not in s2: out[k] = ite(c, s1[k], FALSE)
        for k, v in s2.items():
            w = out.get(k)
            if w is None:
                if type(k) is tuple and k[0] == 'G' and k[1].endswith('#init'): w = FALSE
                else: out[k] = v; continue
            if w is not v: out[k] = ite(c, w, v)
        return out

    def e_un(self, e):
        op = e['op']
        t = strip(e['t'])
        if op == '!': return lnot(self.rv(e['e']))
        if op == '-': return neg(self.rv(e['e']))
        if op == '+': return self.rv(e['e'])
        if op == '&': return self.lv(e['e'])
        if op == '*': return self.read(self.rv(e['e']), t)
        if op in ('++', '--', 'post++', 'post--'):
            p = self.lv(e['e'])
            old = self.read(p, t)
            if isptr(t):
                raise Unsupported('pointer arithmetic')
            new = add(old, const(1 if '++' in op else -1))
            self.write(p, new, t)
            return old if op.startswith('post') else new
        if op == '~': return napp('bitnot', self.rv(e['e']))
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, t):
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if isint(t): return idiv(a, b)
            return div(a, b)
        if op == '%': return imod(a, b)
        if op in ('^', '&', '|', '<<', '>>'):
            if t == 'bool':
                if op == '^': return ite(a, lnot(b), b)
                if op == '&': return land(a, b)
                if op == '|': return lor(a, b)
            if op in ('^', '&', '|'): return tm.REBUILD['bit' + op](a, b)
            return napp('bit' + op, a, b)
        raise Unsupported('arith ' + op)

    def ptrcmp(self, a, b):
        def f(x, y):
            if x is y: return TRUE
            if x.op == 'ptr' and y.op == 'ptr':
                if x.args[0] != y.args[0] and not isinstance(x.args[0], tuple) and not isinstance(y.args[0], tuple): return FALSE
            if x.op == 'null' or y.op == 'null':
                o = y if x.op == 'null' else x
                if o.op == 'ptr' and not isinstance(o.args[0], tuple): return FALSE
                return lnot(batom(mk('nonnull', o)))
            if x.key > y.key: x, y = y, x
            return batom(mk('ptreq', x, y))
        return expand(f, (a, b))

    def compare(self, op, a, b, t):
        if isptr(t) or t == 'std::nullptr_t':
            r = self.ptrcmp(a, b)
            return lnot(r) if op == '!=' else r
        if t == 'bool':
            x = ite(a, b, lnot(b))
            if op == '==': return x
            if op == '!=': return lnot(x)
        I = isint(t)
        if op == '<': return lt(a, b, I)
        if op == '>': return lt(b, a, I)
        if op == '<=': return le(a, b, I)
        if op == '>=': return le(b, a, I)
        if op == '==': return eqn(a, b, I)
        if op == '!=': return lnot(eqn(a, b, I))
        raise Unsupported('cmp ' + op)

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.rv(e['a'])
            if op == '&&':
                if a is FALSE: return FALSE
                if a is TRUE: return self.rv(e['b'])
                return self.branch(a, lambda: self.rv(e['b']), lambda: FALSE)
            if a is TRUE: return TRUE
            if a is FALSE: return self.rv(e['b'])
            return self.branch(a, lambda: TRUE, lambda: self.rv(e['b']))
        if op == ',':
            self.rv(e['a']); return self.rv(e['b'])
        if op == '=':
            t = strip(e['a']['t'])
            v = self.rv(e['b'])
            p = self.lv(e['a'])
            self.write(p, v, t)
            return v
        if op in ('==', '!=', '<', '>', '<=', '>='):
            t = strip(e['a']['t'])
            a = self.rv(e['a']); b = self.rv(e['b'])
            return self.compare(op, a, b, t)
        if op.endswith('='):
            o = op[:-1]
            lt_ = strip(e.get('lt', e['t'])); ct = strip(e.get('ct', lt_))
            b = self.rv(e['b'])
            p = self.lv(e['a'])
            a = self.read(p, lt_)
            a2 = self.conv(a, lt_, ct)
            if isptr(lt_): raise Unsupported('pointer arithmetic')
            v = self.conv(self.arith(o, a2, b, ct), ct, lt_)
            self.write(p, v, lt_)
            return v
        a = self.rv(e['a']); b = self.rv(e['b'])
        t = strip(e['t'])
        if isptr(strip(e['a']['t'])):
            if op == '+': return self.index(a, b, elty(strip(e['a']['t'])))
            raise Unsupported('pointer arithmetic')
        return self.arith(op, a, b, t)

    def conv(self, v, f, t):
        if f == t: return v
        if t == 'bool':
            if f == 'bool': return v
            if isptr(f): return lnot(self.ptrcmp(v, NULL))
            return lnot(eqn(v, ZERO, isint(f)))
        if f == 'bool': return ite(v, ONE, ZERO)
        if f in ('double', 'float', 'long double') and isint(t):
            def g(x):
                if x.op == 'poly' and is_const(x):
                    c = cval(x); q = abs(c.numerator) // c.denominator
                    return const(q if c >= 0 else -q)
                return num(mk('trunc', 'i32' if t in ('int', 'unsigned int', 'short', 'char') else 'i64', x))
            return expand(g, (v,))
        if t == 'float' and f != 'float': 
            return expand(lambda x: x if is_const(x) and cval(x).denominator == 1 else num(mk('tofloat', x)), (v,))
        if f in ('long', 'long long') and t in ('int', 'short', 'char'):
            def g(x):
                if x.op == 'poly' and any(a.op == 'trunc' for a in patoms(x)): return num(mk('narrow', t, x))
                return x
            return expand(g, (v,))
        return v

    def e_cast(self, e):
        ck = e['ck']
        st = strip(e['st']); t = strip(e['t'])
        if ck == 'LValueToRValue':
            x = e['e']
            return self.rv(x)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            return self.conv(self.rv(e['e']), st, t)
        if ck == 'NullToPointer': return NULL
        if ck == 'ArrayToPointerDecay':
            if e['e']['k'] == 'str': return self.rv(e['e'])
            return self.lv(e['e'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'BitCast'):
            if ck == 'BitCast': return self.bitcast(self.rv(e['e']), elty(t))
            if isptr(t) or ck == 'NoOp': return self.rv(e['e'])
            if self.isl(e['e']): return self.project(self.rv(e['e']), t)
            return self.project(self.rv(e['e']), t)
        if ck == 'ToVoid':
            self.rv(e['e']); return VOID
        if ck in ('UserDefinedConversion', 'ConstructorConversion', 'Dependent'): return self.rv(e['e'])
        raise Unsupported('cast ' + ck)

    def bitcast(self, v, et):
        """malloc'ed memory becomes an array of the type it is cast to"""
        if v.op == 'ptr' and not v.args[1]:
            m = self.S.store.get(v.args[0])
            if m is not None and m.op in ('cat', 'ite'):
                sz = {'double': 8, 'int': 4, 'float': 4, 'long': 8, 'char': 1}.get(et)
                def f(x):
                    if x.op == 'cat' and len(x.args[0]) == 1 and x.args[0][0].op == 'rawmem':
                        n = x.args[0][0].args[0]
                        if sz is None or n.op != 'poly': return mk('opq', 'malloc', x)
                        return tm._cat(mk('cat', (mk('uninit', pscale(n, Fraction(1, sz))),)))
                    return x
                self.S.store[v.args[0]] = expand(f, (m,))
                self.btype[v.args[0]] = et + '[]'
        return v

    def project(self, v, cls):
        fs = self.fields(cls)
        if not fs: return v
        if v.op == 'rec' and v.args[0] == cls: return v
        return mkrec(cls, [(f, fld(f, t, v)) for f, t in fs])

    def e_ctor(self, e):
        t = strip(e['t'])
        a = e['a']
        if (e.get('copy') or e.get('move')) and (e['f'].get('impl') or not self.prog.hasbody(e['f']['m'])):
            return self.copyval(a[0], t)
        if e.get('elide') and a: return self.rv(a[0])
        return self.construct(t, e)

    def copyval(self, x, t):
        v = self.rv(x)
        if strip(x['t']) != t and self.fields(t): v = self.project(v, t)
        return v

    def construct(self, t, e):
        b = self.newbase(t, self.default(t))
        p = self.loc(b)
        self.initobj(p, t, e)
        return self.read(p, t)

    def initobj(self, p, t, e):
        """initialise the object at p from initialiser expression e"""
        if e['k'] == 'ctor' and not (e.get('elide') and e['a']):
            m = e['f']['m']
            if (e.get('copy') or e.get('move')) and (e['f'].get('impl') or not self.prog.hasbody(m)):
                self.write(p, self.copyval(e['a'][0], t), t)
                return
            ct = strip(e['f'].get('cls', t))
            if self.prog.hasbody(m) and not self.isstd(e['f']['n']):
                self.callfn(self.prog.funcs[m], p, e['a'], ctor=True)
                return
            if ct in self.prog.records and not e['a']:
                self.implicit_default(p, ct)
                return
            v = self.stdctor(ct, e)
            self.write(p, v, t)
            return
        v = self.rv(e)
        if self.fields(t) and not isseqty(t): v = self.project(v, t) if v.op != 'ite' else v
        self.write(p, v, t)

    def implicit_default(self, p, cls):
        R = self.prog.records[cls]
        for bcls in R['bases']:
            bcls = strip(bcls)
            dc = self.prog.defctor(bcls)
            if dc is not None: self.callfn(dc, p, [], ctor=True)
            else:
                if bcls in self.prog.records: self.implicit_default(p, bcls)
        for f in R['fields']:
            fp = self.field(p, f['n'], f['t'])
            self.fieldinit(fp, f)

    def fieldinit(self, fp, f):
        t = strip(f['t'])
        if f.get('init'): self.initobj(fp, t, f['init'])
        else:
            dc = self.prog.defctor(t)
            if dc is not None:
                self.write(fp, self.default(t), t)
                self.callfn(dc, fp, [], ctor=True)
            elif t in self.prog.records:
                self.write(fp, self.default(t), t)
                self.implicit_default(fp, t)
            else:
                self.write(fp, self.default(t), t)

    def isstd(self, n): return n.startswith('std::') or n.startswith('__gnu')

    # ------------------------------------------------------------ calls
    def e_call(self, e): return self.callv(e)
    e_mcall = e_call
    e_opcall = e_call
    def callv(self, e):
        r = self.call(e)
        if e.get('f', {}).get('rref'):
            return self.read(r, strip(e['t']))
        return r

    def call(self, e, wantloc=False):
        if 'f' not in e: return self.indirect(e)
        f = e['f']
        n = f['n']; m = f['m']
        a = e['a']
        k = e['k']
        intr = None if 'raw:' + n in (self.opts.get('use') or ()) else self.prog.intrinsics.get(n)
        if intr is not None and not self.opts.get('raw:' + n):
            return intr(self, e)
        # object expression
        if k == 'mcall':
            ob = e['b']
            if self.isstd(n) or n.startswith('ClipperLib::'):
                return self.stdm(n, e, ob, a)
            this = self.rv(ob) if e['arrow'] else self.lv(ob)
            return self.methodcall(f, this, a, e)
        if k == 'opcall':
            if e['ismem'] and not self.isstd(n) and not n.startswith('ClipperLib::'):
                fe = a[0]
                this = self.lv(fe)
                if this is not None:
                    v = None
                    if strip(fe['t']).startswith('(lambda'):
                        v = self.read(this)
                        if v.op == 'closure': return self.callclosure(v, a[1:])
                    return self.methodcall(f, this, a[1:], e)
            if self.prog.hasbody(m) and not self.isstd(n): return self.callfn(self.prog.funcs[m], None, a)
            return self.stdop(e['op'], e, a)
        if self.prog.hasbody(m) and not self.isstd(n):
            return self.callfn(self.prog.funcs[m], None, a)
        return self.stdf(n, e, a)

    def indirect(self, e):
        fe = self.rv(e['fe'])
        if fe.op == 'fref' and self.prog.hasbody(fe.args[0]): return self.callfn(self.prog.funcs[fe.args[0]], None, e['a'])
        raise Unsupported('indirect call')

    def callclosure(self, v, args, vals=None):
        c = self.closures[v.args[0]]
        fn = self.prog.funcs.get(c.m)
        if fn is None: raise Unsupported('lambda body')
        return self.callfn(fn, c.this, args, env=c.env, vals=vals)

    def methodcall(self, f, this, args, e):
        m = f['m']
        if f.get('static'): this = None
        if f.get('virt') and not e.get('qualified'):
            return self.virtcall(f, this, args, e)
        if not self.prog.hasbody(m):
            if f['n'].endswith('::operator='):
                v = self.rv(args[0])
                v = self.project(v, strip(f['cls']))
                self.write(this, v, strip(f['cls']))
                return this
            return self.external(f, this, args)
        return self.callfn(self.prog.funcs[m], this, args)

    def dyncls(self, this):
        """dynamic class of the object at a concrete location, or None"""
        if this.op != 'ptr': return None
        b, path = this.args
        if path:
            return None
        if isinstance(b, tuple): return None
        t = self.btype.get(b)
        return t

    def virtcall(self, f, this, args, e):
        static = strip(f['cls'])
        if this.op == 'ite':
            # evaluate each target under its own condition
            ls = []
            def coll(p):
                if p.op == 'ite':
                    for k in p.args[2]: coll(k)
                elif p not in ls: ls.append(p)
            coll(this)
            def rec(i):
                if i == len(ls) - 1: return self.virtcall(f, ls[i], args, e)
                c = expand(lambda p: B(p is ls[i]), (this,))
                return self.branch(c, lambda: self.virtcall(f, ls[i], args, e), lambda: rec(i + 1))
            return rec(0)
        d = self.dyncls(this)
        if d is None:
            # static type when the object is held by value (not reached through a pointer)
            if e.get('arrow') is False or e['k'] == 'opcall':
                d = static
                t = None
                if e['k'] == 'mcall': d = strip(e['b']['t'])
            elif this.op == 'ptr' and this.args[1]:
                d = strip(this.args[1][-1][2])
            elif self.ctx.this is this and this.op == 'ptr':
                d = static
        if d is not None and d in self.prog.records:
            fn = self.prog.override(d, f)
            if fn is not None: return self.callfn(fn, this, args)
        if this.op != 'ptr' or isinstance(this.args[0], tuple):
            # unknown dynamic type: an event of the environment
            vals = [self.rv(x) for x in args]
            self.event(mk('vcall', f['n'], this, tuple(vals)))
            n = self.S.store.get(('fx', 'n'), ZERO)
            return self.symval(f['rt'], mk('vres', f['n'], this, tuple(vals)))
        return self.external(f, this, args)

    def event(self, t):
        b = ('fx', 'log')
        self.S.store[b] = cat(self.S.store.get(b, NIL), lit(t))

    def external(self, f, this, args):
        """function without a body in the analysed program"""
        n = f['n']
        pure = n.startswith('spec_') or '::spec_' in n
        vals = []
        outs = []
        for i, x in enumerate(args):
            p = f['params'][i] if i < len(f['params']) else {}
            if p.get('ref') and not p.get('const'):
                l = self.lv(x); outs.append((i, l, strip(x['t'])))
                vals.append(self.read(l, strip(x['t'])))
            else: vals.append(self.rv(x))
        if not pure:
            self.unknown[n] = self.unknown.get(n, 0) + 1
        if this is not None: vals.insert(0, self.read(this, strip(f.get('cls', '?'))))
        tag = 'call' if pure else 'opq'
        for i, l, t in outs:
            self.write(l, self.symval(t, mk(tag, n, 'out%d' % i, tuple(vals))), t)
        if this is not None and not f.get('const') and not pure:
            self.write(this, mk(tag, n, 'this', tuple(vals)), '?')
        rt = strip(f['rt'])
        if rt == 'void': return VOID
        if all(v.op != 'ite' for v in vals):
            r = self.symval(rt, mk(tag, n, 'ret', tuple(vals)))
        else:
            r = tm.lift_ite(lambda *vs: self.symval(rt, mk(tag, n, 'ret', tuple(vs))), *vals)
        if f.get('rref'): return self.loc(self.newbase(rt, r))
        return r

    def bind(self, fn, params, args, vals=None):
        """evaluate arguments in the caller's context -> list of (id, loc)"""
        out = []
        for i, p in enumerate(params):
            t = strip(p['t'])
            if vals is not None:
                v = vals[i]
                out.append((p['d'], v if (p.get('ref') and v.op == 'ptr') else self.loc(self.newbase(t, v))))
                continue
            if i >= len(args): raise Unsupported('missing argument')
            x = args[i]
            if p.get('ref'):
                if self.isl(x) and not (x['k'] == 'tmp'): out.append((p['d'], self.lv(x)))
                else:
                    b = self.newbase(t, None)
                    loc = self.loc(b)
                    self.S.store[b] = self.default(t) if x['k'] == 'ctor' else mk('undef', 'arg')
                    self.initobj(loc, t, x if x['k'] != 'tmp' else x['e'])
                    xt = strip(x['t'])
                    if xt != t and xt in self.prog.records: self.btype[b] = xt
                    out.append((p['d'], loc))
            else:
                b = self.newbase(t, mk('undef', 'arg'))
                loc = self.loc(b)
                if x['k'] == 'ctor':
                    self.S.store[b] = self.default(t)
                    self.initobj(loc, t, x)
                else:
                    v = self.rv(x)
                    self.S.store[b] = v
                out.append((p['d'], loc))
        return out

    MAXDEPTH = 60
    def callfn(self, fn, this, args, ctor=False, env=None, vals=None):
        if self.depth > self.MAXDEPTH: raise Unsupported('recursion ' + fn['n'])
        if self.S.dead:
            rt = strip(fn['rt'])
            if fn.get('rref'): return self.loc(self.newbase(rt, self.symval(rt, mk('undef', 'dead'))))
            return self.symval(rt, mk('undef', 'dead'))
        if fn.get('body') is None and not fn.get('ctor'): raise Unsupported('no body ' + fn['n'])
        binds = self.bind(fn, fn['params'], args, vals)
        if fn['n'].endswith('::operator<') and this is not None and len(binds) == 1:
            r = self.keyless(fn, this, binds[0][1])
            if r is not None: return r
        self.funcs_seen.add((fn['n'], fn['file'], fn['l']))
        use = self.opts.get('use')
        if use:
            if 'outline:' + fn['n'] in use and not (fn.get('ctor') and len(fn['params']) == 1 and strip(fn['params'][0]['t']) == strip(fn['cls'])): return self.outline(fn, this, binds)
            if fn['n'] in use and fn['n'].startswith('opq::'): return self.opaque(fn, binds)
            c = self.prog.contracts.get(fn['m'])
            if c is not None and (c['n'] in use or 'all' in use):
                self.contracts_used.add(c['n'])
                ps = c['params']
                locs = [l for _, l in binds]
                if len(ps) == len(locs) + 1: locs = [this] + locs
                binds = [(p['d'], l) for p, l in zip(ps, locs)]
                fn = c; this = None
        caller = self.ctx
        line = self.line
        ctx = Ctx(fn, this)
        if env: ctx.env.update(env)
        for d, l in binds: ctx.env[d] = l
        self.ctx = ctx
        S0 = self.S
        g0 = S0.guard
        self.S = State(S0.store, TRUE)
        self.depth += 1
        try:
            if fn.get('ctor'): self.ctorinits(fn, this)
            if fn.get('body') is not None: self.exec(fn['body'])
        finally:
            self.depth -= 1
            self.ctx = caller
        S1 = self.S
        self.line = line
        outs = list(ctx.returns)
        if not S1.dead: outs.append((S1.guard, S1.store, VOID))
        self.S = S0
        if ctx.locals and not fn.get('rref'):
            # the function's own variables are gone
            outs = [(g, self.dropdead(st, ctx.locals), v) for g, st, v in outs]
        for g, st, et, site in ctx.throws:
            gg = land(g0, g)
            if gg is not FALSE and caller is not None: caller.throws.append((gg, st, et, site))
            elif caller is None: raise Unsupported('throw at top')
        if not outs:
            self.S.guard = FALSE
            return self.deadval(fn)
        store, val = outs[-1][1], outs[-1][2]
        gl = outs[-1][0]
        for g, st, v in reversed(outs[:-1]):
            store = self.merge(g, st, store)
            val = v if val is v else (ite(g, v, val) if val is not VOID else v)
            gl = lor(g, gl)
        self.S.store = store
        # open output streams are flushed and closed by their destructors
        for l in ctx.streams: self.closestream(l)
        self.S.guard = land(g0, gl)
        return val

    def dropdead(self, st, dead):
        return {b: v for b, v in st.items() if b not in dead}

    def keyless(self, fn, this, other):
        """`a < b` where one side is the map key next to the looked-up key: known without looking into the key"""
        def parts(p):
            return (p.args[0], p.args[2]) if p.op == 'ite' else None
        if this.op == 'ite' or other.op == 'ite':
            def has(p):
                if p.op == 'ite': return any(has(k) for k in p.args[2])
                v = self.S.store.get(p.args[0]) if p.op == 'ptr' and not p.args[1] else None
                return v is not None and v.op == 'keyaway'
            if not has(this) and not has(other): return None
            return expand(lambda a, b: self.keyless1(fn, a, b), (this, other))
        return self.keyorder(this, other)

    def keyless1(self, fn, a, b):
        r = self.keyorder(a, b)
        if r is not None: return r
        o = self.loc(self.newbase(strip(fn['params'][0]['t']), self.read(b)))
        return self.callfn(fn, a, [], vals=[o if fn['params'][0].get('ref') else self.read(o)])

    def opaque(self, fn, binds):
        """a pure specification function left uninterpreted"""
        vals = []
        for p, (d, l) in zip(fn['params'], binds):
            v = self.read(l, strip(p['t']))
            vals.append(tm.pull(v) if v.op == 'rec' else v)
        rt = strip(fn['rt']); n = fn['n']
        if rt == 'bool': return expand(lambda *a: batom(mk('call', n, *a)), vals)
        return expand(lambda *a: num(mk('call', n, *a)), vals)

    def outline(self, fn, this, binds):
        """a library function read as an unknown but fixed function of its arguments and its object (both sides of a
        pair read it the same way; what it computes is decided by the pairs about it)"""
        if fn.get('rref'): raise Unsupported('outlined reference ' + fn['n'])
        name = 'ol:' + fn['m']
        vals = []
        ct = strip(fn['cls']) if fn.get('cls') else None
        if this is not None and not fn.get('ctor'): vals.append(self.read(this, ct))
        for p, (d, l) in zip(fn['params'], binds): vals.append(self.read(l, strip(p['t'])))
        vals = [tm.pull(v) if v.op == 'rec' else v for v in vals]
        self.outlined.add(fn['n'])
        for et in self.prog.throws_of(fn):
            self.throw(expand(lambda *a: batom(mk('call', name + '#throws ' + et, *a)), vals), et)
            if self.S.dead: return self.deadval(fn)
        def part(k, ty):
            self.fields(ty)
            return expand(lambda *a: tm.typed(ty, mk('call', name + k, *a)), vals)
        import run
        keeps = (run.olterms(self.prog, fn, self.opts) or {}).get('keeps', ())
        post = []
        for i, (p, (d, l)) in enumerate(zip(fn['params'], binds)):
            if p.get('ref') and not p.get('const') and '#%d' % i not in keeps: post.append(('#%d' % i, l, part('#%d' % i, strip(p['t'])), strip(p['t'])))
        if this is not None and not fn['m'].startswith('_ZNK') and '#this' not in keeps: post.append(('#this', this, part('#this', ct), ct))
        rt = strip(fn['rt'])
        r = VOID if rt == 'void' or fn.get('ctor') else part('', rt)
        def mixed(path, old, new, ty):
            if path in keeps: return old
            fs = self.fields(ty)
            if not fs or fn.get('ctor') or not any(k.startswith(path + '.') for k in keeps): return new
            if old.op != 'rec' or old.args[0] != ty: return new
            return mkrec(ty, [(f, mixed(path + '.' + f, fld(f, t, old), fld(f, t, new), strip(t))) for f, t in fs])
        for l, v, t in [(l, mixed(k, self.read(l, t), v, t), t) for k, l, v, t in post]: self.write(l, v, t)
        return r

    def deadval(self, fn):
        rt = strip(fn['rt'])
        if fn.get('rref'): return self.loc(self.newbase(rt, self.symval(rt, mk('undef', 'dead'))))
        if rt == 'void': return VOID
        return self.symval(rt, mk('undef', 'dead'))

    def ctorinits(self, fn, this):
        cls = strip(fn['cls'])
        R = self.prog.records.get(cls)
        inits = fn.get('inits', [])
        if any(i.get('deleg') for i in inits):
            for i in inits: self.initobj(this, cls, i['e'])
            return
        done = set()
        byb = {strip(i['base']): i for i in inits if i.get('base')}
        byf = {i['f']: i for i in inits if i.get('f')}
        for b in (R['bases'] if R else []):
            b = strip(b)
            if b in byb: self.initobj_base(this, b, byb[b]['e'])
            else:
                dc = self.prog.defctor(b)
                if dc is not None: self.callfn(dc, this, [], ctor=True)
                elif b in self.prog.records: self.implicit_default(this, b)
        for f in (R['fields'] if R else []):
            fp = self.field(this, f['n'], f['t'])
            if f['n'] in byf:
                e = byf[f['n']]['e']
                t = strip(f['t'])
                if f.get('ref'): raise Unsupported('reference member')
                self.initobj(fp, t, e)
            else: self.fieldinit(fp, f)

    def initobj_base(self, this, b, e):
        """initialise the base-class part of *this"""
        if e['k'] == 'ctor':
            m = e['f']['m']
            if (e.get('copy') or e.get('move')) and (e['f'].get('impl') or not self.prog.hasbody(m)):
                v = self.copyval(e['a'][0], b)
                for f, t in self.fields(b): self.write(self.field(this, f, t), fld(f, t, v), t)
                return
            if self.prog.hasbody(m):
                self.callfn(self.prog.funcs[m], this, e['a'], ctor=True)
                return
            if b in self.prog.records and not e['a']:
                self.implicit_default(this, b)
                return
            if b in self.prog.records: raise Unsupported('base ctor ' + b)
            return
        raise Unsupported('base init ' + e['k'])

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.S.dead: return
        if 'l' in s: self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None: raise Unsupported('stmt ' + s['k'] + ' ' + str(s.get('w')))
        m(s)

    def s_block(self, s):
        for x in s['b']:
            if self.S.dead: return
            self.exec(x)
    def s_nop(self, s): pass
    def s_expr(self, s):
        e = s['e']
        self.effect(e)
    def effect(self, e):
        if e['k'] in ('call', 'mcall', 'opcall'): self.call(e)
        else: self.rv(e)
    def s_decl(self, s):
        for v in s['v']: self.decl(v)
    def decl(self, v):
        t = strip(v['t'])
        if v.get('static'):
            self.ctx.env[v['d']] = self.loc(('G', v['g']))
            if getattr(self, 'firstcall', False) and v.get('init') and self.dynamic(v['g']):
                b = ('G', v['g']); fb = ('G', v['g'] + '#init')
                was = self.S.store.get(fb, FALSE)
                if was is not TRUE:
                    old = self.S.store.get(b)
                    x = v['init']; t = strip(v['t'])
                    nb = self.newbase(t, self.default(t))
                    if x['k'] in ('ctor', 'tmp'): self.initobj(self.loc(nb), t, x if x['k'] != 'tmp' else x['e'])
                    else: self.S.store[nb] = self.rv(x)
                    new = self.S.store[nb]
                    self.S.store[b] = new if old is None or was is FALSE else ite(was, old, new)
                    self.S.store[fb] = TRUE
            return
        if v.get('ref'):
            x = v['init']
            if self.isl(x): self.ctx.env[v['d']] = self.lv(x)
            else:
                b = self.newbase(t, self.default(t))
                self.initobj(self.loc(b), t, x if x['k'] != 'tmp' else x['e'])
                self.ctx.env[v['d']] = self.loc(b)
            return
        b = self.newbase(t, None)
        p = self.loc(b)
        if 'stream' not in t: self.ctx.locals.add(b)
        if v.get('arr') and not v.get('init'):
            self.S.store[b] = mk('cat', (mk('uninit', const(v['arr'])),))
        else: self.S.store[b] = self.default(t)
        self.ctx.env[v['d']] = p
        if v.get('init'):
            x = v['init']
            if x['k'] == 'ctor' or x['k'] == 'tmp': self.initobj(p, t, x if x['k'] != 'tmp' else x['e'])
            else:
                val = self.rv(x)
                if self.fields(t) and not isseqty(t) and strip(x['t']) != t and val.op != 'ite' and not isvit(t): val = self.project(val, t)
                self.S.store[b] = val
        if t.startswith('std::basic_ofstream'): self.ctx.streams.append(p)

    def s_ret(self, s):
        v = VOID
        if s.get('e'):
            e = s['e']
            if self.ctx.fn and self.ctx.fn.get('rref'): v = self.lv(e)
            else: v = self.rv(e)
            if v is not VOID and self.ctx.fn and not self.ctx.fn.get('rref'):
                rt = strip(self.ctx.fn['rt'])
                if self.fields(rt) and strip(e['t']) != rt and strip(e['t']) in self.prog.records and not isptr(rt): v = self.project(v, rt)
        if self.S.dead: return
        self.ctx.returns.append((self.S.guard, self.S.store, v))
        self.S = State({}, FALSE)

    def s_break(self, s):
        self.ctx.breaks.append((self.S.guard, self.S.store))
        self.S = State({}, FALSE)
    def s_continue(self, s):
        self.ctx.continues.append((self.S.guard, self.S.store))
        self.S = State({}, FALSE)

    def s_if(self, s):
        if s.get('init'): self.exec(s['init'])
        if s.get('cv'): self.exec(s['cv'])
        c = self.rv(s['c'])
        if self.S.dead: return
        if c is TRUE: self.exec(s['a']); return
        if c is FALSE: self.exec(s['b']); return
        S0 = self.S
        S1 = State(dict(S0.store), land(S0.guard, c)); S2 = State(dict(S0.store), land(S0.guard, lnot(c)))
        if not S1.dead:
            self.S = S1; self.exec(s['a']); S1 = self.S
        if not S2.dead:
            self.S = S2; self.exec(s['b']); S2 = self.S
        if S1.dead: self.S = S2
        elif S2.dead: self.S = S1
        else: self.S = State(self.merge(c, S1.store, S2.store), lor(S1.guard, S2.guard))

    def s_switch(self, s):
        v = self.rv(s['c'])
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        items = []
        def flat(x):
            if x['k'] in ('case', 'default'):
                items.append(('case', self.rv(x['v']) if x['k'] == 'case' else None))
                flat(x['b'])
            else: items.append(('stmt', x))
        for x in body: flat(x)
        cases = [x[1] for x in items if x[0] == 'case' and x[1] is not None]
        saveb = self.ctx.breaks
        self.ctx.breaks = []
        S0 = self.S
        t = TRUE
        entry = {}
        nomatch = TRUE
        conds = []
        for c in cases:
            eqc = eqn(v, c, True)
            conds.append(land(nomatch, eqc))
            nomatch = land(nomatch, lnot(eqc))
        cur = State({}, FALSE)
        ci = 0
        hasdef = False
        for kind, x in items:
            if kind == 'case':
                if x is None: cond = nomatch; hasdef = True
                else: cond = conds[ci]; ci += 1
                ent = State(dict(S0.store), land(S0.guard, cond))
                if cur.dead: cur = ent
                elif not ent.dead:
                    cur = State(self.merge(ent.guard, ent.store, cur.store), lor(ent.guard, cur.guard))
            else:
                if cur.dead: continue
                self.S = cur; self.exec(x); cur = self.S
        brk = self.ctx.breaks
        self.ctx.breaks = saveb
        outs = list(brk)
        if not cur.dead: outs.append((cur.guard, cur.store))
        if not hasdef:
            g = land(S0.guard, nomatch)
            if g is not FALSE: outs.append((g, dict(S0.store)))
        self.join(outs)

    def join(self, outs):
        if not outs:
            self.S = State({}, FALSE); return
        g, st = outs[-1]
        for g1, s1 in reversed(outs[:-1]):
            st = self.merge(g1, s1, st)
            g = lor(g1, g)
        self.S = State(st, g)

    def s_try(self, s):
        save = self.ctx.throws
        self.ctx.throws = []
        self.exec(s['b'])
        th = self.ctx.throws
        self.ctx.throws = save
        outs = []
        if not self.S.dead: outs.append((self.S.guard, self.S.store))
        for g, st, et, site in th:
            h = None
            for hh in s['h']:
                if hh['t'] == '...' or self.excmatch(et, strip(hh['t'])): h = hh; break
            if h is None: self.ctx.throws.append((g, st, et, site)); continue
            self.S = State(st, g)
            if 'd' in h: self.ctx.env[h['d']] = self.loc(self.newbase(strip(h['t']), mk('exc', et)))
            self.exec(h['b'])
            if not self.S.dead: outs.append((self.S.guard, self.S.store))
        self.join(outs)

    EXC = {'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
           'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception']}
    def excmatch(self, et, ht): return et == ht or ht in self.EXC.get(et, []) 

    # loops --------------------------------------------------------
    def s_for(self, s):
        if s.get('init'): self.exec(s['init'])
        self.loop(s, lambda: self.rv(s['c']) if s.get('c') else TRUE, lambda: self.exec(s['b']), lambda: self.effect(s['inc']) if s.get('inc') else None)
    def s_while(self, s):
        def cond():
            if s.get('cv'): self.exec(s['cv'])
            return self.rv(s['c'])
        self.loop(s, cond, lambda: self.exec(s['b']), lambda: None)
    def s_do(self, s):
        first = self.loc(self.newbase('bool', TRUE))
        def cond():
            f = self.read(first)
            if f is TRUE:
                self.write(first, FALSE); return TRUE
            if f is FALSE: return self.rv(s['c'])
            def a():
                self.write(first, FALSE); return TRUE
            return self.branch(f, a, lambda: self.rv(s['c']))
        # body once, then a while loop
        saveb, savec = self.ctx.breaks, self.ctx.continues
        self.ctx.breaks, self.ctx.continues = [], []
        self.exec(s['b'])
        outs = self.ctx.continues[:]
        brk = self.ctx.breaks
        self.ctx.breaks, self.ctx.continues = saveb, savec
        if not self.S.dead: outs.append((self.S.guard, self.S.store))
        self.join(outs)
        if not self.S.dead: self.loop(s, lambda: self.rv(s['c']), lambda: self.exec(s['b']), lambda: None)
        fin = list(brk)
        if not self.S.dead: fin.append((self.S.guard, self.S.store))
        self.join(fin)

    def s_rfor(self, s):
        rt = strip(s['rt'])
        r = s['r']
        p = self.lv(r)
        v = s['v']
        t = strip(v['t'])
        if ismap(rt) or isset(rt):
            m = self.read(p, rt)
            if isset(rt): seq = expand(lambda x: mk('elements', x), (m,))
            else: seq = self.entries(m)
            p = self.loc(self.newbase('std::vector<%s>' % elty(rt), seq))
        et = t if t != 'auto' else elty(rt)
        if not isseqty(rt) and not (ismap(rt) or isset(rt)):
            raise Unsupported('range over ' + rt)
        idx = self.loc(self.newbase('int', ZERO))
        ety = elty(rt)
        def cond(): return lt(self.read(idx, 'int'), length(self.read(p, rt)), True)
        def body():
            i = self.read(idx, 'int')
            el = self.index(p, i, ety)
            if v.get('ref'): self.ctx.env[v['d']] = el
            else: self.ctx.env[v['d']] = self.loc(self.newbase(t, self.conv(self.read(el, ety), ety, t) if isnum(t) or t == 'bool' else self.read(el, ety)))
            self.exec(s['b'])
        def inc(): self.write(idx, add(self.read(idx, 'int'), ONE), 'int')
        self.loop(s, cond, body, inc)

    def entries(self, m):
        return expand(lambda x: NIL if x.op == 'mempty' else mk('entries', x), (m,))

    def loop(self, s, cond, body, inc):
        from loops import run_loop
        run_loop(self, s, cond, body, inc)

from stdmodel import *
import stdmodel as _sm
for _n, _f in list(vars(_sm).items()):
    if callable(_f) and getattr(_f, '_method', False): setattr(Interp, _n, _f)
for _n in ('bappsym', 'argval', 'zeroel', 'mloc', 'mitfield', 'keyorder', 'iscout', 'closestream', 'mkfixed', 'mitloc'):
    setattr(Interp, _n, getattr(_sm, _n))
