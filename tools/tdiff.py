import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
import terms as tm
from terms import T
def tdiff(x,y,out=None,limit=6,seen=None,path=()):
    """innermost differing positions"""
    if out is None: out=[]; seen=set()
    if x is y or (id(x),id(y)) in seen or len(out)>=limit: return out
    seen.add((id(x),id(y)))
    if isinstance(x,T) and isinstance(y,T) and x.op==y.op and len(x.args)==len(y.args):
        n=len(out)
        if x.op=='ite' and x.args[0] is y.args[0] and x.args[1]==y.args[1]:
            for i,(a,b) in enumerate(zip(x.args[2],y.args[2])): tdiff(a,b,out,limit,seen,path+((x.args[0],x.args[1],i),))
        else:
          for a,b in zip(x.args,y.args):
            tdiff(a,b,out,limit,seen,path+((x.op,),))
        if len(out)==n: out.append((x,y,path)) if x is not y and not any(isinstance(a,(T,tuple)) for a in x.args) else None
        return out
    if isinstance(x,tuple) and isinstance(y,tuple) and len(x)==len(y):
        for a,b in zip(x,y): tdiff(a,b,out,limit,seen,path)
        return out
    if x!=y: out.append((x,y,path))
    return out
_names={}
def sh(t,d=0):
    if isinstance(t,T) and t.op=='lout':
        n=_names.setdefault(t,'L%d'%len(_names)); return n
    return tm.show(t)
def show2(t):
    # replace lout by names
    o=tm.show
    def s(x,d=0):
        if isinstance(x,T) and x.op in('lout',):
            return _names.setdefault(x,'L%d'%len(_names))
        return o(x,d)
    tm.show=s
    try: return s(t)
    finally: tm.show=o
