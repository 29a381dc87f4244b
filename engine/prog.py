"""Loads the extracted, type-resolved program: every translation unit of the two libraries plus the
specification units, each run on /repo's current source."""
import json, os, subprocess, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRACT = os.path.join(VERIF, 'build', 'extract')
RES = '/usr/lib/llvm-18/lib/clang/18'

class AnalysisBroken(Exception):
    pass

def ensure_extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src): return
    r = subprocess.run(['make', '-C', os.path.join(VERIF, 'extractor')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise AnalysisBroken('extractor does not build:\n' + r.stdout.decode()[-2000:])

def units():
    out = []
    for d in ('delynoi/src', 'lib/utilities/src'):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            if '/clipper/lib' in root: continue
            for f in sorted(fs):
                if f.endswith('.cpp'): out.append(os.path.join(root, f))
    return sorted(out)

INCL = ['-I' + REPO + '/delynoi/include', '-I' + REPO + '/lib/utilities/include']
FLAGS = ['-std=gnu++11'] + INCL + ['-resource-dir', RES]

def extract(src, out, roots=None, extra=()):
    roots = roots or ('%s/delynoi:%s/lib/utilities' % (REPO, REPO))
    cmd = [EXTRACT, out, roots, 'lib/triangle:/clipper/lib', src] + FLAGS + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not os.path.exists(out): raise AnalysisBroken('extraction of %s failed:\n%s' % (src, r.stderr.decode()[-3000:]))
    with open(out) as f: d = json.load(f)
    d['stderr'] = r.stderr.decode(errors='replace')
    os.unlink(out)
    return d

class Prog(object):
    def __init__(self, specs=(), with_repo=True, workdir=None):
        ensure_extractor()
        import tempfile
        self.funcs = {}; self.records = {}; self.enums = {}; self.globals = {}; self.decls = {}
        self.tus = []; self.errors = []
        self.intrinsics = {}
        self.modified_globals = set()
        self.byname = {}
        tmp = tempfile.mkdtemp(prefix='dly', dir=workdir)
        try:
            jobs = []
            srcs = (units() if with_repo else [])
            with ThreadPoolExecutor(8) as ex:
                for i, s in enumerate(srcs): jobs.append((s, False, ex.submit(extract, s, os.path.join(tmp, 'u%d.json' % i))))
                for i, s in enumerate(specs):
                    jobs.append((s, True, ex.submit(extract, s, os.path.join(tmp, 's%d.json' % i), '%s/delynoi:%s/lib/utilities:%s/spec' % (REPO, REPO, VERIF), ['-I' + VERIF + '/spec', '-fno-access-control'])))
                for s, isspec, j in jobs:
                    d = j.result()
                    if d['errors']: self.errors.append((s, d['stderr']))
                    self.add(d, s, isspec)
        finally:
            for f in glob.glob(tmp + '/*'): os.unlink(f)
            os.rmdir(tmp)
        self.scan_globals()
        self.overmap = {}
        self.contracts = {}
        norm = lambda t: t.replace('const ', '').replace('&', '').replace('class ', '').replace('struct ', '').replace(' ', '')
        for c in [c for k, v in self.byname.items() if k.startswith('contract::') for c in v]:
            target = c['n'][len('contract::'):].replace('__', '::').replace('operatorEQ', 'operator==')
            for t in self.byname.get(target, []):
                cp = [norm(p['t']) for p in c['params']]; tp = [norm(p['t']) for p in t['params']]
                if cp == tp or (len(cp) == len(tp) + 1 and cp[1:] == tp): self.contracts[t['m']] = c

    def throws_of(self, fn):
        """types of the exceptions that may leave fn (throw expressions and checked accesses reachable from it; none is caught in the library)"""
        if not hasattr(self, '_throws'): self._throws = {}
        r = self._throws.get(fn['m'])
        if r is not None: return r
        out = set(); seen = set(); todo = [fn]
        while todo:
            g = todo.pop()
            if g['m'] in seen: continue
            seen.add(g['m'])
            st = [g.get('body'), g.get('inits')]
            while st:
                x = st.pop()
                if isinstance(x, list): st.extend(x); continue
                if not isinstance(x, dict): continue
                if x.get('k') == 'throw' and x.get('e'): out.add(x['e'].get('t') or '?')
                c = x.get('f')
                if isinstance(c, dict) and 'm' in c:
                    h = self.funcs.get(c['m'])
                    if h is not None: todo.append(h)
                    elif c['n'].startswith('std::') and c['n'].split('::')[-1] in ('at', 'substr'): out.add('std::out_of_range')
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        r = self._throws[fn['m']] = sorted(out)
        return r

    def add(self, d, src, isspec):
        n = len(self.tus)
        self.tus.append((src, isspec, len(d['functions'])))
        for f in d['functions']:
            f['tu'] = n
            g = self.funcs.get(f['m'])
            if g is None or (g.get('body') is None and f.get('body') is not None):
                self.uniq(f, n)
                self.funcs[f['m']] = f
                self.byname.setdefault(f['n'], []).append(f)
        for r in d['records']:
            if r['n'] not in self.records: 
                self.uniq(r, n)
                self.records[r['n']] = r
        for e in d['enums']: self.enums[e['n']] = e
        for g in d['globals']:
            o = self.globals.get(g['g'])
            if o is None or (g.get('def') and not o.get('def')):
                self.uniq(g, n)
                self.globals[g['g']] = g
        for x in d['decls']:
            o = self.decls.get(x['m'])
            if o is None or (x.get('def') and not o.get('def')): self.decls[x['m']] = x

    def uniq(self, o, n):
        """local variable ids are per translation unit: make them unique"""
        base = n * 1000000
        st = [o]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                d = x.get('d')
                if isinstance(d, int) and d < 1000000 and not x.get('_u'):
                    x['d'] = d + base + 1000000
                    x['_u'] = 1
                st.extend(x.values())
            elif isinstance(x, list): st.extend(x)

    def walk(self, o):
        st = [o]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if 'k' in x: yield x
                st.extend(x.values())
            elif isinstance(x, list): st.extend(x)

    def scan_globals(self):
        """globals assigned anywhere outside their initialiser"""
        def root(e):
            while e and e['k'] in ('mem', 'sub', 'cast', 'tmp'):
                if e['k'] == 'mem':
                    if e['arrow']: return None
                    e = e['b']
                elif e['k'] == 'sub': e = e['b']
                else: e = e['e']
            return e
        for f in self.funcs.values():
            for x in self.walk(f.get('body')):
                t = None
                if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '<=', '>=', '!='): t = x['a']
                elif x['k'] == 'un' and ('++' in x['op'] or '--' in x['op'] or x['op'] == '&'): t = x['e']
                elif x['k'] == 'mcall' and not x['f'].get('const') and not x['arrow']: t = x['b']
                elif x['k'] == 'opcall' and x['a'] and not x.get('f', {}).get('const'): t = x['a'][0]
                if t is not None:
                    r = root(t)
                    if r is not None and r['k'] == 'gref': self.modified_globals.add(r['g'])
                if x['k'] in ('call', 'mcall', 'opcall', 'ctor') and 'f' in x:
                    for i, p in enumerate(x['f']['params']):
                        if p.get('ref') and not p.get('const'):
                            aa = x['a'][1:] if x['k'] == 'opcall' and x.get('ismem') else x['a']
                            if i < len(aa):
                                r = root(aa[i])
                                if r is not None and r['k'] == 'gref': self.modified_globals.add(r['g'])

    # ---- interface used by the interpreter
    def hasbody(self, m):
        f = self.funcs.get(m)
        return f is not None and (f.get('body') is not None or (f.get('ctor') and not f.get('defaulted')))
    def global_modified(self, g): return g in self.modified_globals
    def flatfields(self, t):
        R = self.records[t]
        out = []
        for b in R['bases']:
            b = b.replace('class ', '').strip()
            if b in self.records: out += list(self.flatfields(b))
        for f in R['fields']: out.append((f['n'], f['t'] + ('&' if f.get('ref') else '')))
        return out
    def defctor(self, cls):
        for f in self.ctors(cls):
            if not f['params'] and not f.get('implicit') and not f.get('defaulted'): return f
        return None
    def ctors(self, cls):
        r = getattr(self, '_ctors', None)
        if r is None:
            r = self._ctors = {}
            for f in self.funcs.values():
                if f.get('ctor'): r.setdefault(f['cls'], []).append(f)
        return r.get(cls, [])
    def bases(self, cls):
        out = [cls]
        R = self.records.get(cls)
        for b in (R['bases'] if R else []): out += self.bases(b.replace('class ', '').strip())
        return out
    def override(self, dyn, f):
        """final overrider of virtual method f for dynamic class dyn"""
        key = (dyn, f['m'])
        if key in self.overmap: return self.overmap[key]
        res = None
        for c in self.bases(dyn):
            R = self.records.get(c)
            if not R: continue
            for m in R['methods']:
                if m['m'] == f['m'] or f['m'] in self.overs(c, m):
                    if self.hasbody(m['m']): res = self.funcs[m['m']]
                    break
            else: continue
            break
        self.overmap[key] = res
        return res
    def overs(self, c, m):
        s = set(m.get('over') or [])
        todo = list(s)
        idx = getattr(self, '_midx', None)
        if idx is None:
            idx = self._midx = {}
            for R in self.records.values():
                for q in R['methods']: idx[q['m']] = q
        while todo:
            x = todo.pop()
            for y in (idx.get(x, {}).get('over') or []):
                if y not in s: s.add(y); todo.append(y)
        return s
    def fn(self, name):
        fs = self.byname.get(name, [])
        return fs[0] if fs else None
