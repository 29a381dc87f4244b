"""which planted bugs change lines of the original repository (git blame of the lines they remove)"""
import os,re,subprocess
BASE='13c1cbd'; SD='/verif/seeded'
for b in sorted(os.listdir(SD)):
    t=open(os.path.join(SD,b,'patch.diff')).read(); f=None; own=orig=0
    for l in t.split('\n'):
        m=re.match(r'^--- a/(\S+)',l)
        if m: f=m.group(1); continue
        m=re.match(r'^@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if f is None or l.startswith('+++') or l.startswith('diff'): continue
        if l.startswith('-'):
            o=subprocess.run(['git','-C','/repo','blame','-s','-L','%d,%d'%(n,n),BASE+'..HEAD','--',f],capture_output=True,text=True).stdout
            if o.startswith('^'): orig+=1
            else: own+=1
            n+=1
        elif l.startswith(' '): n+=1
    print('%-28s original %d  own %d %s'%(b,orig,own,'' if orig and not own else '<<<'))
