"""Pretty printer for the MIR dump (debugging aid)."""
import json, sys
def place(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e=="*": s="(*%s)"%s
        elif e[0]=="f": s+=".%d"%e[1]
        elif e[0]=="i": s+="[_%d]"%e[1]
        elif e[0]=="dc": s="(%s as v%d)"%(s,e[1])
        else: s+=str(e)
    return s
def op(o):
    if o[0] in "cm": return place(o[1])
    if o[0]=="k": return "const %s"%json.dumps(o[1]["v"])
    return str(o)
def rv(r):
    k=r[0]
    if k=="use": return op(r[1])
    if k=="ref": return ("&mut " if r[1] else "&")+place(r[2])
    if k in("bin","cbin"): return "%s%s(%s, %s)"%(k,r[1],op(r[2]),op(r[3]))
    if k=="un": return "%s(%s)"%(r[1],op(r[2]))
    if k=="cast": return "cast %s %s -> t%d"%(r[1],op(r[2]),r[3])
    if k=="agg": return "agg %s [%s]"%(r[1],", ".join(op(x) for x in r[2]))
    if k in("disc","len","addr"): return "%s %s"%(k,place(r[1]))
    return json.dumps(r)
def show(f):
    print("fn",f["key"],f["file"],f["line"])
    print("  locals",list(enumerate(f["locals"])))
    print("  vars",[(n,place(p)) for n,p in f["vars"]])
    for i,b in enumerate(f["blocks"]):
        print(" bb%d:"%i)
        for s in b["s"]:
            if s[0]=="=": print("    %s = %s"%(place(s[1]),rv(s[2])))
            else: print("   ",s)
        t=b["t"]
        if t[0]=="call": print("    %s = CALL %s [%s](%s) -> %s"%(place(t[3]),t[1]["def"],t[1]["inst"],", ".join(op(x) for x in t[2]),t[4]))
        elif t[0]=="switch": print("    switch",op(t[1]),t[3],t[4])
        elif t[0]=="assert": print("    assert",op(t[1]),t[2],t[3],t[5])
        else: print("   ",t)
if __name__=="__main__":
    d=json.load(open(sys.argv[1]))
    for f in d["fns"]:
        if sys.argv[2] in f["key"]: show(f)
