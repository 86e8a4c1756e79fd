#!/usr/bin/env python3
"""Which single corruption of a recorded call does no property reject?
usage: audit.py [seed]"""
import copy, os, random, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import isolation
isolation.start()
import drivers, objects, plan, surface, tlc, trace
from concurrent.futures import ThreadPoolExecutor
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
rng = random.Random(seed)
tr = trace.Tracer()
for name, n in [("roundtrip",60),("decode_errors",100),("encode_errors",100),("keys",30),("bitmaps",30),("headers",40),("binaries",60),("texts",20),("prefixes",60),("damaged",60),("lengths",40),("encode_bitmaps",20),("partial_specs",30)]:
    fn = next(getattr(m, name) for m in (drivers, surface, objects, isolation) if hasattr(m, name))
    fn(rng, tr, n)
tr.sessions = [s for s in tr.sessions if s.ev]
out = trace.Tracer(); out.specs = tr.specs
tags = []
def corrupt(e, rng):
    o = e["o"]; ok = o["k"] == "ok"
    op = e["op"]
    opts = []
    if ok:
        opts += ["k:Err", "k:foreign"]
        for k in (o["dk"] if op=="dec" else []): opts += ["d-del", "d-val", "d-empty", "d-case"]
        if op=="enc": opts += ["d-del","d-val","d-add"]
        opts += ["e-del","e-len","e-data","e-add","e-swap"]
        if op=="dec": opts += ["d-add"]
        if op=="enc": opts += ["raw-cut","raw-add","raw-flip","raw-head"]
        opts += ["both-len"]
    else:
        opts += ["k:ok","k:foreign","f","f2","pos","msg","txt","own","e-del","e-len","e-data","e-add"]
        opts += ["d-del","d-val","d-add"]
    t = rng.choice(opts)
    ek, el, ed = o["ek"], o["el"], o["ed"]; dk, dv = o["dk"], o["dv"]
    who = None
    def pick(l): return rng.randrange(len(l)) if l else None
    if t == "k:Err":
        o["k"] = {"dec":"DecodeError","enc":"EncodeError"}[op]
        cand = [k for k in ek] 
        f = rng.choice(cand); o["f"] = f; o["msg"] = "Some"; o["txt"]="Some: field x"; o["own"]=True; o["pos"]=0
        # keep only partials before f (wire order)
        order = sorted(ek)
        idx = order.index(f); keep = order[:idx + rng.randrange(2)]
        for kk in list(ek):
            if kk not in keep:
                i = ek.index(kk); del ek[i]; del el[i]; del ed[i]
        if op=="dec":
            for kk in list(dk):
                if kk not in keep: i=dk.index(kk); del dk[i]; del dv[i]
        who = f
    elif t == "k:foreign": o["k"] = "KeyError"; o["dk"],o["dv"],o["ek"],o["el"],o["ed"] = ([],[],[],[],[]) if op=="dec" else (dk,dv,[],[],[])
    elif t == "k:ok": o["k"]="ok"; o["f"]=-99
    elif t.startswith("d-"):
        i = pick(dk)
        if t == "d-add":
            k = rng.choice([x for x in range(-2,193) if x not in dk]); dk.append(k); dv.append([48,48]); who=k
        elif i is None: return None
        else:
            who = dk[i]
            if t=="d-del": del dk[i]; del dv[i]
            elif t=="d-val": 
                if not dv[i]: dv[i]=[48]
                else: j=rng.randrange(len(dv[i])); dv[i]=dv[i][:j]+[(dv[i][j]+1)]+dv[i][j+1:]
            elif t=="d-empty":
                if not dv[i]: return None
                dv[i]=dv[i][:-1]
            elif t=="d-case":
                n=[c+32 if 65<=c<=70 else c for c in dv[i]]
                if n==dv[i]: return None
                dv[i]=n
    elif t.startswith("e-"):
        i = pick(ek)
        if t=="e-add":
            k = rng.choice([x for x in range(-2,193) if x not in ek]); ek.append(k); el.append([]); ed.append([48]); who=k
        elif i is None: return None
        else:
            who=ek[i]
            if t=="e-del": del ek[i]; del el[i]; del ed[i]
            elif t=="e-len": 
                if not el[i]: el[i]=[48]
                else: el[i]=el[i][:-1]+[(el[i][-1]+1)%256]
            elif t=="e-data":
                if not ed[i]: ed[i]=[48]
                else: ed[i]=ed[i][:-1]+[(ed[i][-1]+1)%256]
            elif t=="e-swap":
                if not el[i]: return None
                ed[i]=el[i][-1:]+ed[i]; el[i]=el[i][:-1]
    elif t=="raw-cut": o["raw"]=o["raw"][:-1]
    elif t=="raw-add": o["raw"]=o["raw"]+[48]
    elif t=="raw-flip": j=rng.randrange(len(o["raw"])); o["raw"]=list(o["raw"]); o["raw"][j]=(o["raw"][j]+1)%256
    elif t=="raw-head": o["raw"]=[0]+o["raw"]
    elif t=="both-len":
        return None
    elif t=="f": o["f"]=rng.choice([-3,-2,-1,1,2,65,66,192])
    elif t=="f2": o["f"]+=1
    elif t=="pos": o["pos"]+=rng.choice([-1,1])
    elif t=="msg": o["msg"]=o["msg"]+"."
    elif t=="txt": o["txt"]=o["txt"]+"."
    elif t=="own": o["own"]=False
    return "%s %s%s" % (op, t, "" if who is None else " H" if who==-3 else " T" if who==-2 else " P" if who==-1 else " 1" if who==1 else " 65" if who==65 else " n")
for s in tr.sessions:
    if sum(len(str(e)) for e in s.ev) > 60000: continue
    for _ in range(4):
        ev = copy.deepcopy(s.ev)
        idx = [i for i,e in enumerate(ev) if "o" in e]
        if not idx: continue
        i = rng.choice(idx)
        base = copy.deepcopy(ev[i])
        tag = corrupt(ev[i], rng)
        if tag is None or ev[i]==base: continue
        t = out.session(s.label); t.ev = ev; t.tag=(tag, base["o"]["k"], i, base)
def run(p):
    return p, trace.validate(p, out)
caught = {}
with ThreadPoolExecutor(3) as ex:
    for p, r in ex.map(run, [p for p in sorted(plan.CHECKS) if p not in ("C16","C17","C18","C20","C15")]):
        for s, bad in r.bad: caught.setdefault(id(s), []).append(p)
from collections import Counter
tot=Counter(); miss=Counter(); by={}
ex={}
for s in out.sessions:
    k=(s.tag[0], "ok" if s.tag[1]=="ok" else "err")
    tot[k]+=1
    if id(s) not in caught: miss[k]+=1; ex.setdefault(k,[]).append((s.label, s.ev[s.tag[2]], s.tag[3]))
    else:
        for p in caught[id(s)]: by.setdefault(k,Counter())[p]+=1
for k in sorted(tot): print(k, tot[k], "missed", miss[k], dict(by.get(k,{})))
