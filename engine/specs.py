"""Index of the specification units: which pair or law decides which property, and in which mode."""
import os, re
import prog
SPECDIR = os.path.join(prog.VERIF, 'spec')

class Pair(object):
    def __init__(self, name, kind, file, line, props, use, rules):
        self.name = name; self.kind = kind; self.file = file; self.line = line
        self.props = props; self.use = use; self.verifies = rules

def index():
    """// @ C01 C02   following pairs belong to these properties
       ... // + C03    at the end of a pair: it also belongs to these properties
       // USE a b     following pairs read these library functions through their contracts (none: // USE)
       a pair whose reference calls contract::F verifies that contract"""
    out = {}
    for f in sorted(os.listdir(SPECDIR)):
        if not f.endswith('.cpp'): continue
        props, use = (), frozenset()
        for i, l in enumerate(open(os.path.join(SPECDIR, f))):
            if l.startswith('// @'): props = tuple(l[4:].split()); continue
            if l.startswith('// USE'): use = frozenset(l.split()[2:]); continue
            m = re.match(r'^\S.*?\b(lhs|holds)_(\w+)\(', l)
            if m and not l.startswith('//'):
                n = m.group(1) + '_' + m.group(2)
                assert n not in out, n
                x = re.search(r'//\s*\+((\s+C\d+)+)\s*$', l)
                out[n] = Pair(n, m.group(1), f, i + 1, props + tuple(x.group(1).split() if x else ()), use, [])
            m = re.match(r'^\S.*?\brhs_c_(\w+?)(__\w+)?\(', l)
            if m:
                for c in re.findall(r'contract::(\w+)', l): out['lhs_c_' + m.group(1)].verifies.append('contract::' + c)
    return out

def select(pid, idx=None):
    """the pairs of a property, and the pairs that verify the contracts they rely on"""
    idx = idx or index()
    sel = [p for p in idx.values() if pid in p.props]
    seen = set(p.name for p in sel)
    byc = {}
    for p in idx.values():
        for c in p.verifies: byc.setdefault(c, p)
    todo = list(sel); deps = []
    while todo:
        p = todo.pop()
        for c in p.use:
            q = byc.get(c)
            if q is not None and q.name not in seen:
                seen.add(q.name); deps.append(q); todo.append(q)
    return sel, deps
