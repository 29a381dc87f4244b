"""developer driver: try.py SPEC[,SPEC] [names...]"""
import sys,time,os,signal,resource
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)));sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
import prog, run, traceback, terms as tm, faulthandler
resource.setrlimit(resource.RLIMIT_AS,(12<<30,12<<30))
specs=sys.argv[1].split(',')
only=sys.argv[2:]
P=prog.Prog(specs=[os.path.join(prog.VERIF,'spec',s) for s in specs])
P.intrinsics=run.INTRINSICS
for e in P.enums: tm.ENUMT.add(e)
for s,e in P.errors: print('ERR',s,e[:2000])
USE={}
for sp in specs:
    for l in open(os.path.join(prog.VERIF,'spec',sp)):
        if l.startswith('// USE'):
            USE[sp]=set(l.split()[2:])
import specs as S_; IDX=S_.index()
names=sorted(n for n in P.byname if n.startswith(('lhs_','holds_')))
class TO(Exception): pass
def alarm(*a): raise TO('timeout')
signal.signal(signal.SIGALRM,alarm)
W=int(os.environ.get('W','1500')); LIM=int(os.environ.get('LIM','60'))
bad=0
T0=time.time()
for n in names:
    if only and n.split('_',1)[1] not in only: continue
    t=time.time(); use=set(IDX[n].use) if n in IDX and not os.environ.get('WHOLE') else None
    if not only and not os.environ.get('NOFORK'):
        # one process per pair, as in check.py: normal forms must not depend on what was built before
        sys.stdout.flush(); pid=os.fork()
        if pid:
            _,st=os.waitpid(pid,0); bad+=st!=0; continue
        FORK=True; bad=0
    else: FORK=False
    signal.alarm(LIM)
    try:
        a=run.evaluate(P,P.byname[n][0],{'use':use})
        if n.startswith('holds_'):
            r=a.comp.get('result')
            g=a.ret
            bad_=tm.land(g, tm.lnot(r)) if r is not run.NONE and not isinstance(r,tuple) and r.op in('true','false','ite') else r
            ok=run.law(a)
            print('OK' if ok else 'NO',n,'%.2f'%(time.time()-t), {k:tm.show(v)[:100] for k,v in a.comp.items() if k not in('output log','result')})
            if not ok: bad+=1; print('   ',tm.show(r)[:W])
            if FORK: sys.stdout.flush(); os._exit(bad!=0 and 1)
            continue
        b=run.evaluate(P,P.byname['rhs_'+n[4:]][0],{'use':use})
        ok=True
        for k in sorted(set(a.comp)|set(b.comp)):
            x=a.comp.get(k); y=b.comp.get(k)
            if x is None or y is None or not run.poly_equal(x,y):
                ok=False
                print('  DIFF',n,k); print('   L',tm.show(x)[:W] if x else None); print('   R',tm.show(y)[:W] if y else None)
                if os.environ.get('D') and x is not None and y is not None:
                    import tdiff
                    for p,q,pa in tdiff.tdiff(x,y):
                        for z in pa: print('     path',tdiff.show2(z)[:W])
                        print('   @@',tdiff.show2(p)[:W]); print('   vs',tdiff.show2(q)[:W])
                if x: print('   flags',x.flags, y.flags if y else None)
        bad+=not ok
        print('OK' if ok else 'NO',n,'%.2f'%(time.time()-t), a.I.unknown, sorted(a.comp) if only else '')
    except (Exception,MemoryError) as ex:
        bad+=1
        print('EXC',n,repr(ex)[:300],'%.2f'%(time.time()-t))
        if only: traceback.print_exc()
    finally: signal.alarm(0)
    if FORK: sys.stdout.flush(); os._exit(1 if bad else 0)
    sys.stdout.flush()
print('bad',bad,'of',len(names),'%.1fs'%(time.time()-T0))
