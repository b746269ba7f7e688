#!/usr/bin/env python3
"""pretty-print MIR facts (debug aid): pp.py FACTS.json REGEX"""
import json,sys,re
def pl(p):
    s="_%d"%p[0]
    for e in p[1:]:
        if e=="*": s="(*%s)"%s
        elif e=="o": pass
        elif e[0]=="f": s+="."+e[2]
        elif e[0]=="i": s+="[_%d]"%e[1]
        elif e[0]=="c": s+="[%s%d]"%("-" if e[2] else "",e[1])
        elif e[0]=="s": s+="[%d..%d%s]"%(e[1],e[2],"-" if e[3] else "")
        elif e[0]=="d": s+="@"+e[2]
    return s
def opd(o):
    if "cp" in o: return pl(o["cp"])
    if "mv" in o: return "mv "+pl(o["mv"])
    if "rc" in o: return o["rc"]
    return "K"+json.dumps(o["c"]["v"])[:160]
def rv(r,T):
    k=r[0]
    if k=="agg": return "agg %s %s(%s)%s"%(r[1],T[r[2]]["s"] if r[2] is not None else "",", ".join(map(opd,r[3]))," v%d"%r[4] if len(r)>4 else "")
    if k in("bin","cbin"): return "%s %s %s %s"%(k,opd(r[2]),r[1],opd(r[3]))
    if k=="cast": return "cast %s as %s (%s)"%(opd(r[2]),T[r[3]]["s"],r[1])
    if k in("use",): return opd(r[1])
    if k in("ref","reborrow"): return "&%s%s"%("mut " if r[1] else "",pl(r[2]))
    if k in("discr","len","addr"): return "%s %s"%(k,pl(r[1]))
    if k=="un": return "%s %s"%(r[1],opd(r[2]))
    return json.dumps(r)
def show(b,T,F):
    print("fn",b["name"],"[",b["def"],"]",F[b["ispan"][0]],b["ispan"][1])
    for i,l in enumerate(b["locals"]): print("   let _%d: %s %s"%(i,T[l[0]]["s"],l[1] or ""))
    for i,bl in enumerate(b["blocks"]):
        print(" bb%d:"%i)
        for s in bl["s"]:
            if s[0]=="=": print("    ",pl(s[1]),"=",rv(s[2],T))
            else: print("    ",s)
        t=bl["t"]
        if t["k"]=="call":
            f=t["f"]; print("    CALL %s = %s(%s) -> %s   L%d"%(pl(t["d"]),f.get("name") or f.get("op"),", ".join(map(opd,t["a"])),t["t"],bl["sp"][1]), f.get("kind"))
        elif t["k"]=="switch": print("    SWITCH",opd(t["d"]),t["br"],"else",t["o"])
        elif t["k"]=="assert": print("    ASSERT",opd(t["c"]),t["e"],t["m"],"->",t["t"])
        else: print("    ",{k:v for k,v in t.items() if k!="ty"})
if __name__=="__main__":
    d=json.load(open(sys.argv[1])); T=d["types"]
    for b in d["bodies"]+d["statics"]:
        if re.search(sys.argv[2],b["name"]):
            if len(sys.argv)>3: print(b["name"],"|",b["def"],b["poly"])
            else: show(b,T,d["files"])
