#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current source (see DESIGN.md)."""
import sys, os, time, json, signal, resource, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import terms as tm
import prog, run, specs, separate
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
BUDGET = 700 if TIER == 'quick' else 3000

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def compare(P, name, use):
    """-> (equal?, [differences per alternative reference], outcomes)   differences: [(component, source, reference)]"""
    a = run.evaluate(P, P.byname[name][0], {'use': use})
    if name.startswith('holds_'):
        if run.law(a): return True, [], [a]
        return False, [[('law', a.comp.get('result'), None)]], [a]
    base = 'rhs_' + name[4:]
    alts = []
    for n in sorted(k for k in P.byname if k == base or k.startswith(base + '__')):
        b = run.evaluate(P, P.byname[n][0], {'use': use})
        ds = []
        ds = differences(a, b)
        if not ds: return True, [], [a, b]
        alts.append(ds)
    return False, alts, [a, b]

def differences(a, b):
    ds = []
    for k in sorted(set(a.comp) | set(b.comp)):
        x, y = a.comp.get(k), b.comp.get(k)
        if x is None: x = run.missing(a, b, k)
        if y is None: y = run.missing(b, a, k)
        if x is y and x is not None: continue
        if x is None or y is None or not run.poly_equal(x, y): ds.append((k, x, y))
    return ds

def loops(t, seen, out):
    if id(t) in seen: return
    seen.add(id(t))
    if not isinstance(t, tm.T):
        if isinstance(t, tuple):
            for x in t: loops(x, seen, out)
        return
    if not t.flags & tm.GLOOP: return
    if t.op == 'loop': out.append(t)
    for x in t.args: loops(x, seen, out)

def calls(t):
    """names of the functions a normal form leaves uninterpreted"""
    out = set(); seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x); continue
        if not isinstance(x, tm.T) or id(x) in seen: continue
        seen.add(id(x))
        if x.op == 'call': out.add(x.args[0].split('#')[0])
        todo.extend(x.args)
    return out

def definite(x, y):
    """is a difference between two normal forms a statement about behaviour?  Not when either contains a part
    that the analysis does not interpret, or loops it could not bring to the same form."""
    for t in (x, y):
        if t is not None and (t.flags & tm.OPQ): return False, 'uninterpreted construct'
    if calls(x) != calls(y): return False, 'read through different function boundaries'
    lx, ly = [], []
    if x is not None: loops(x, set(), lx)
    if y is not None: loops(y, set(), ly)
    if len(lx) != len(ly): return False, 'loops of different form'
    if lx:
        sh = lambda l: sorted((len(t.args), tuple(len(a) if isinstance(a, tuple) else 0 for a in t.args)) for t in l)
        if sh(lx) != sh(ly): return False, 'loops of different form'
    return True, ''

def describe(P, pair, o, ds, nalts, whole):
    """the differing components.  Definite: the two normal forms are told apart by an interpretation of their leaves;
    or no interpretation is conclusive and the forms differ although both are fully interpreted with the same loops."""
    st = {}; w = None
    ds = sorted(ds, key=lambda d: (d[0] == 'output log') * 2 + d[0].startswith('throws'))
    ok = [(k, x, y) for k, x, y in ds if x is not None and (y is not None or k == 'law')]
    if ok: w = separate.separates_any(P, o.I, P.byname[pair.name][0]['params'], [(x, y) for k, x, y in ok], seconds=60.0 / nalts, stats=st)
    out = []
    for k, x, y in ds:
        t = None; n = None
        if (k, x, y) not in ok: d, why = False, 'component not comparable'
        else:
            i = ok.index((k, x, y)); n = st['conclusive'][i]
            if w and w[0] == i: d, why, t = True, '', w[1]
            elif w: d, why = False, 'not needed'
            elif n >= 20: d, why = False, 'normal forms differ but no interpretation of their leaves tells them apart (%d conclusive)' % n
            else:
                # below the boundaries of the specification the invariants of the objects are not part of the forms
                d, why = definite(x, y) if not whole else (False, 'read below the boundaries of the specification')
                if not d: why = 'normal forms differ (%s) and no interpretation is conclusive (%s)' % (why, ', '.join(str(u) for u in st.get('undefined', {})))
        site = o.where.get(k)
        out.append({'component': k, 'definite': d, 'why': why, 'source': tm.show(x)[:3000] if x is not None else None,
            'reference': tm.show(y)[:3000] if y is not None else ('true' if k == 'law' else None), 'told_apart_by': t, 'interpretations': {'rounds': st.get('rounds'), 'conclusive': n, 'undefined': st.get('undefined')},
            'site': site and ['%s:%s' % (os.path.relpath(f, prog.REPO), l) for f, l in site]})
    return out

def history(P, pair, use, limit, mode):
    """the same comparison for the first call in a process (fresh), or for a second call in the state that a first one with
    other arguments leaves in the static variables of the code; None when it finds no difference"""
    signal.alarm(int(limit) + 1)
    try:
        a = run.evaluate(P, P.byname[pair.name][0], {'use': use, mode: True})
        out = []
        for n in sorted(k for k in P.byname if k == 'rhs_' + pair.name[4:] or k.startswith('rhs_' + pair.name[4:] + '__')):
            b = run.evaluate(P, P.byname[n][0], {'use': use})
            dd = []
            ds = [d for d in differences(a, b) if d[1] is not None and d[2] is not None]
            st = {}
            w = separate.separates_any(P, a.I, P.byname[pair.name][0]['params'], [(x, y) for k, x, y in ds], seconds=40, stats=st, history=mode == 'history')
            if w:
                k, x, y = ds[w[0]]; w = w[1]
                dd.append({'component': k + (' (of a second call)' if mode == 'history' else ''), 'definite': True, 'why': '', 'source': tm.show(x)[:3000], 'reference': tm.show(y)[:3000], 'told_apart_by': w, 'interpretations': st, 'site': None})
            if not dd: return None
            out.append(dd)
        return out or None
    except (Timeout, tm.TooBig, MemoryError, RecursionError, run.Unsupported): return None
    except Exception: return None
    finally: signal.alarm(0)

def entries(P, name):
    """the library functions that the source side of a pair calls itself"""
    out = []
    def go(n):
        if isinstance(n, dict):
            f = P.funcs.get(n.get('m')) if isinstance(n.get('m'), str) else None
            if f and f.get('file', '').startswith(prog.REPO):
                s = '%s (%s:%s)' % (f.get('n', '?'), os.path.relpath(f['file'], prog.REPO), f.get('l'))
                if s not in out: out.append(s)
            for v in n.values(): go(v)
        elif isinstance(n, (list, tuple)):
            for v in n: go(v)
    go(P.byname[name][0].get('body'))
    return out

def ops(x):
    seen = set(); out = {}
    def go(t):
        if isinstance(t, tuple):
            for y in t: go(y)
        elif isinstance(t, tm.T) and id(t) not in seen:
            seen.add(id(t)); out[t.op] = out.get(t.op, 0) + 1
            for y in t.args: go(y)
    if x is not None: go(x)
    return out

def judge(P, pair, limit):
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (int(os.environ.get('VERIF_MEM', '4')) << 30,) * 2)
    r = {'name': pair.name, 'file': pair.file, 'line': pair.line, 'props': list(pair.props), 'contracts': [], 'funcs': [], 'unknown': {}}
    t0 = time.time()
    if pair.name not in P.byname or P.byname[pair.name][0].get('body') is None:
        r['verdict'] = 'undecided'; r['why'] = 'the specification unit does not compile against this tree'; return r
    last = None
    modes = [pair.use] if pair.use else [None]
    if pair.use and not any(u.startswith('mode:') for u in pair.use): modes.append(None)
    for i, use in enumerate(modes):
        lim = max(5, limit - (time.time() - t0))
        if i == 0 and len(modes) > 1: lim = lim * 0.6
        if i == 1: lim = min(lim, 120)
        signal.alarm(int(lim) + 1)
        try:
            eq, alts, os_ = compare(P, pair.name, use)
            signal.alarm(0)
        except Timeout: r.setdefault('why', 'time limit'); continue
        except (tm.TooBig, MemoryError, RecursionError): r.setdefault('why', 'normal form too large'); continue
        except run.Unsupported as e: r.setdefault('why', 'unsupported construct: %s' % e); continue
        except Exception as e:
            r.setdefault('why', 'analysis error: %r' % e); r['trace'] = traceback.format_exc()[-1500:]; continue
        finally: signal.alarm(0)
        fs = set(); cs = set(); ol = set()
        for o in os_: ol |= o.I.outlined; fs |= o.I.funcs_seen; cs |= o.I.contracts_used; r['unknown'].update(o.I.unknown)
        r['entry'] = entries(P, pair.name)
        r['funcs'] = sorted('%s (%s:%s)' % (n, os.path.relpath(f, prog.REPO), l) for n, f, l in fs if f.startswith(prog.REPO))
        r['contracts'] = sorted(cs); r['outlined'] = sorted(ol)
        r['components'] = sorted(set().union(*[set(o.comp) for o in os_]))
        if eq:
            r['verdict'] = 'ok'; r['mode'] = 'contracts' if use else 'whole'; r.pop('why', None)
            r['time'] = round(time.time() - t0, 2); return r
        if any(run.statics(P, x) for ds in alts for k, x, y in ds if x is not None):
            res = None
            for mode in ('fresh', 'history'):
                if not res: res = history(P, pair, use, max(30, limit - (time.time() - t0)), mode)
            if res: last = res[0]; r['verdict'] = 'violation'; break
            r.setdefault('why', 'depends on state kept between calls, which no short history shows'); continue
        signal.alarm(int(max(20, limit - (time.time() - t0))) + 1)
        try: res = [describe(P, pair, os_[0], ds, len(alts), bool(pair.use) and not use) for ds in alts]
        except Timeout: res = None
        finally: signal.alarm(0)
        if res is None: r.setdefault('why', 'time limit'); continue
        hit = all(any(d['definite'] for d in dd) for dd in res)
        last = res[0]
        if hit: r['verdict'] = 'violation'; break
    r['time'] = round(time.time() - t0, 2)
    if last is None: r['verdict'] = 'undecided'; return r
    r['diffs'] = last
    if r.get('verdict') != 'violation':
        r['verdict'] = 'undecided'; r['why'] = '; '.join(sorted(set(d['why'] for d in last if d['why'])))
    return r

def _worker(P, pair, limit, q):
    try: r = judge(P, pair, limit)
    except BaseException as e: r = {'name': pair.name, 'file': pair.file, 'line': pair.line, 'props': list(pair.props), 'verdict': 'undecided', 'why': 'analysis error: %r' % e, 'funcs': [], 'contracts': []}
    q.send(r); q.close()
    os._exit(0)

def run_pairs(P, pairs, deadline, per):
    out = []; live = []; todo = list(pairs)
    while todo or live:
        while todo and len(live) < 8 and time.time() < deadline:
            p = todo.pop(0)
            a, b = mp.Pipe(False)
            lim = min(per, max(5, deadline - time.time()))
            w = mp.Process(target=_worker, args=(P, p, lim, b)); w.start(); b.close()
            live.append((p, w, a, time.time() + lim + 140))
        if todo and time.time() >= deadline:
            for p in todo: out.append({'name': p.name, 'file': p.file, 'line': p.line, 'props': list(p.props), 'verdict': 'undecided', 'why': 'time limit', 'funcs': [], 'contracts': []})
            todo = []
        for x in list(live):
            p, w, a, dl = x
            if a.poll(0.02):
                try: r = a.recv()
                except EOFError: r = {'name': p.name, 'file': p.file, 'line': p.line, 'props': list(p.props), 'verdict': 'undecided', 'why': 'analysis process ended', 'funcs': [], 'contracts': []}
                out.append(r); w.join(); live.remove(x)
            elif time.time() > dl:
                w.kill(); w.join(); live.remove(x)
                out.append({'name': p.name, 'file': p.file, 'line': p.line, 'props': list(p.props), 'verdict': 'undecided', 'why': 'time limit', 'funcs': [], 'contracts': []})
    return out

def known():
    d = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property='):
                pid, rest = l[len('known: property='):].split(' ', 1)
                key, text = rest.split(' :: ', 1)
                d.append((pid, key.strip(), text.strip()))
    return d

def main(pid):
    import rules
    idx = specs.index()
    sel, deps = specs.select(pid, idx)
    rl = rules.RULES.get(pid, [])
    files = sorted(set(p.file for p in sel + deps))
    P = prog.Prog(specs=[os.path.join(specs.SPECDIR, f) for f in files])
    P.intrinsics = run.INTRINSICS
    for e in P.enums: tm.ENUMT.add(e)
    load_errors = [(s, e[:1500]) for s, e in P.errors]
    repo_broken = [s for s, e in P.errors if s.startswith(prog.REPO)]
    per = 240 if TIER == 'quick' else 900
    deadline = T0 + BUDGET - 150
    res = run_pairs(P, sel + deps, deadline, per) if sel else []
    findings = []; undecided = []; obligations = 0; discharged = 0
    cov = {}
    for r in res:
        n = max(1, len(r.get('components', [])))
        obligations += n
        if r['verdict'] == 'ok': discharged += n
        elif r['verdict'] == 'violation':
            d = sorted([x for x in r['diffs'] if x['definite']], key=lambda x: x['component'] == 'output log')[0]
            findings.append(('pair:%s:%s' % (r['name'], d['component']), '%s differs from its specification (%s)' % (d['component'], r['name']), r))
        else: undecided.append((r['name'], r.get('why', '?')))
    rulecov = []
    for f in rl:
        c = rules.Report(pid)
        try: f(P, c)
        except Exception as e:
            undecided.append((f.__name__, 'analysis error: %r' % e)); c.trace = traceback.format_exc()
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        obligations += c.checked; discharged += c.checked - len(c.findings) - len(c.undecided)
        findings += [(k, t, {'rule': f.__name__, 'site': s, 'detail': d}) for k, t, s, d in c.findings]
        undecided += [('%s: %s' % (f.__name__, k), w) for k, w in c.undecided]
        rulecov.append({'rule': f.__name__, 'what': (f.__doc__ or '').strip(), 'sites_checked': c.checked, 'samples': c.samples[:12]})
    kn = [(k, t) for p, k, t in known() if p == pid]
    new = []
    for k, t, r in findings:
        m = [x for x in kn if x[0] == k]
        if m: print('KNOWN-FINDING: property=%s %s' % (pid, m[0][1]))
        else: new.append((k, t, r))
    EVD = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    funcs = sorted(set(x for r in res for x in r.get('funcs', [])))
    ev = {'property': pid, 'tier': TIER, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
          'coverage': {
              'explanation': 'Static comparison of normalised value graphs: each specification pair is one library entry point, read from the current source with all inputs symbolic, against a reference; a component (result field, parameter, thrown exception, output) is discharged when both normalise to the same graph. Rules are syntactic/dataflow obligations over the extracted program.',
              'obligations': obligations, 'discharged': discharged,
              'undecided': [{'what': a, 'why': b} for a, b in undecided],
              'translation_units': len(P.tus), 'functions_extracted': len(P.funcs),
              'functions_analysed': funcs,
              'pairs': [{'pair': r['name'], 'spec': '%s:%s' % (r['file'], r['line']), 'verdict': r['verdict'], 'mode': r.get('mode'), 'components': r.get('components'), 'through_contracts': r.get('contracts'), 'taken_as_fixed_functions': r.get('outlined'), 'seconds': r.get('time')} for r in sorted(res, key=lambda r: r['name'])],
              'rules': rulecov,
              'load_errors': load_errors,
          },
          'assumptions': ['real-number arithmetic in place of floating point', 'sizes and indices fit their types', 'sequence accesses that the library performs are in range unless a rule says otherwise', 'standard library behaves as modelled in engine/stdmodel.py'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(new)}
    for r in res: tm_ = r.pop('trace', None)
    with open(os.path.join(EVD, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1fs' % (pid, obligations, discharged, len(undecided), len(new), time.time() - T0))
    for a, b in undecided: print('  undecided %s: %s' % (a, b))
    if new:
        rp = os.path.join(EVD, pid + '.replay.txt')
        with open(rp, 'w') as f:
            for k, t, r in new:
                f.write('== %s\n%s\n' % (k, t))
                f.write(json.dumps(r, indent=1, default=str) + '\n')
        for k, t, r in new[:20]:
            where = r.get('site') or ', '.join(r.get('entry') or (r.get('funcs') or ['?'])[-1:])
            print('  violated: %s [%s]' % (t, where))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if repo_broken:
        print('error: these units of the repository do not compile: %s' % repo_broken); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
