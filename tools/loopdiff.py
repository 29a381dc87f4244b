"""developer tool: LOOPDBG=1 loopdiff.py SPEC NAME: compares the loops both sides of a pair could not close, slot by slot"""
import sys,os
os.environ['LOOPDBG']='1'
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)));sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
import prog, run, terms as tm, loops, specs as S_, tdiff
P=prog.Prog(specs=[os.path.join(prog.VERIF,'spec',sys.argv[1])]); P.intrinsics=run.INTRINSICS
for e in P.enums: tm.ENUMT.add(e)
W=int(os.environ.get('W','300'))
n=sys.argv[2]; use=set(S_.index()['lhs_'+n].use); d=[]
for side in ('lhs_','rhs_'):
    loops.DUMP.clear(); run.evaluate(P,P.byname[side+n][0],{'use':use}); d.append(list(loops.DUMP))
print('loops',len(d[0]),len(d[1]))
for i,(a,b) in enumerate(zip(*d)):
    print('== loop',i,'cond same',a[0] is b[0],'N same',a[2] is b[2],'slots',len(a[1]),len(b[1]))
    if a[0] is not b[0]: print('  C L',tm.show(a[0])[:W]); print('  C R',tm.show(b[0])[:W])
    for k in sorted(set(a[1])|set(b[1])):
        x=a[1].get(k); y=b[1].get(k)
        if x is None or y is None: print('  only',('R','L')[y is None],k,(x or y)[0],tm.show((x or y)[1])[:W]); continue
        if x[1] is not y[1]:
            print('  differs',k,x[0],y[0])
            for p,q,pa in list(tdiff.tdiff(x[1],y[1]))[:3]:
                for z in pa[-3:]: print('     path',tdiff.show2(z)[:W])
                print('     @@',tdiff.show2(p)[:W]); print('     vs',tdiff.show2(q)[:W])
