"""sanity of engine/separate.py: pairs that are equal must never be separated, and most interpretations must be conclusive"""
import sys,time,os,signal
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
import prog, run, terms as tm, separate, specs as S_
IDX=S_.index()
specs=sys.argv[1].split(','); only=sys.argv[2:]
P=prog.Prog(specs=[os.path.join(prog.VERIF,'spec',s) for s in specs]); P.intrinsics=run.INTRINSICS
for e in P.enums: tm.ENUMT.add(e)
for n in sorted(P.byname):
    if not n.startswith('lhs_') or (only and n[4:] not in only): continue
    sys.stdout.flush()
    if os.fork(): os.wait(); continue
    signal.alarm(150)
    use=set(IDX[n].use) if n in IDX else None
    try:
        a=run.evaluate(P,P.byname[n][0],{'use':use}); b=run.evaluate(P,P.byname['rhs_'+n[4:]][0],{'use':None if os.environ.get('MIX') else use})
    except Exception as ex: print('EXC',n,repr(ex)[:200]); os._exit(0)
    for k in sorted(set(a.comp)|set(b.comp)):
        x,y=a.comp.get(k),b.comp.get(k)
        if x is None or y is None: print('ONESIDED',n,k); continue
        st={}
        t=time.time()
        w=separate.separates(P,a.I,P.byname[n][0]['params'],x,y,seconds=float(os.environ.get('SEC','3')),stats=st)
        print('SEP' if w else 'ok ',n,k,'%.1fs'%(time.time()-t),st, w or '')
    sys.stdout.flush(); os._exit(0)
