"""Debug helper: pretty-print MIR facts."""
import sys
from model import *
def pl(p):
    s="_%d"%p[0]
    for e in p[1:]:
        if e=="*": s="(*%s)"%s
        elif isinstance(e,list) and e[0]=="f": s+="."+e[2]
        elif isinstance(e,list) and e[0]=="d": s="(%s as %s)"%(s,e[2])
        elif isinstance(e,list) and e[0]=="i": s+="[_%d]"%e[1]
        else: s+=str(e)
    return s
def op(o):
    if "c" in o: return pl(o["c"])
    if "m" in o: return "mv "+pl(o["m"])
    return "const "+o["k"][:60]
def rv(r):
    k=r[0]
    if k=="use": return op(r[1])
    if k=="ref": return ("&mut " if r[1] else "&")+pl(r[2])
    if k=="agg": return "%s::%s{%s}"%(r[1],r[2],", ".join(("%s: "%n if n else "")+op(o) for n,o in zip(r[3]+[""]*(len(r[4])-len(r[3])),r[4])))
    if k=="bin": return "%s(%s, %s)"%(r[1],op(r[2]),op(r[3]))
    if k=="un": return "%s(%s)"%(r[1],op(r[2]))
    if k=="cast": return "cast(%s as %s)"%(op(r[2]),r[3])
    if k in("discr","raw"): return k+" "+pl(r[1])
    return str(r)
def show(f,cleanup=False):
    print("fn",f.name,f.loc,"args",f.nargs,"uid",f.uid)
    for i,(t,n) in enumerate(f.locals): print("  let _%d: %s %s"%(i,t,n and "//"+n))
    for i,b in enumerate(f.blocks):
        if b.cleanup and not cleanup: continue
        print(" bb%d%s:"%(i," (cleanup)" if b.cleanup else ""))
        for s in b.stmts:
            if s[0]=="=": print("    %4d %s = %s"%(s[1],pl(s[2]),rv(s[3])))
            elif s[0]=="dead": pass
            else: print("    ",s)
        t=b.term
        if t[0]=="call":
            c=Callee(t[2])
            print("    %4d %s = call %s%s(%s) -> bb%s"%(t[1],pl(t[4]),"virt " if c.virt or not c.uid else "",c.name or c.ptr,", ".join(map(op,t[3])),t[5]), c.g if c.virt or not c.uid else "")
        elif t[0]=="drop": print("    %4d drop %s -> bb%s  [%s]"%(t[1],pl(t[2]),t[3],t[5][:80]))
        elif t[0]=="switch": print("    %4d switch %s %s else bb%s"%(t[1],op(t[2]),t[3],t[4]))
        else: print("    ",t[0],t[1:])
if __name__=="__main__":
    m=Model(sys.argv[1])
    for n in sys.argv[2:]:
        for f in m.fns.values():
            if f.name==n or f.name.endswith("::"+n): show(f)
