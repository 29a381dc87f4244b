"""writes engine/fields.json: the members of the library's classes (see separate.newfields)"""
import sys,os,json,glob
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
import prog
P=prog.Prog(specs=sorted(glob.glob(os.path.join(prog.VERIF,'spec','*.cpp'))))
json.dump(sorted({f['n'] for R in P.records.values() for f in R['fields']}),open(os.path.join(prog.VERIF,'engine','fields.json'),'w'),indent=0)
