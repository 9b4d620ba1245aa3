"""showcase.py REPLAY [item id]: statements of a case and what they printed."""
import sys, json
sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw, properties
rn=fw.Runner("show")
c=json.load(open(sys.argv[1]))["case"]
b,rs=rn.judge(c,cap=20)
for ph,r in zip(c["phases"],rs):
    for f,t in (ph.get("files") or {}).items(): print("=====",f); print("\n".join(l[:160] for l in t.split("\n") if not l.startswith("//....")))
    so,se=r.sections("out"),r.sections("err")
    for it in ph["items"]:
        n=ph["line_of"][it["id"]]
        print(">>",n,it["id"],it["t"][:300]); print("   ",so.get(n,"-- none")[:600].rstrip())
        if se.get(n,"").strip(): print("    ERR",se[n][:600].rstrip())
    print(r.how,r.code,r.status,r.counts)
    if len(sys.argv)>2: print(r.log)
print(b[:3]); print(c.get("ops"))
rn.close()
