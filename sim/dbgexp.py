import sys,json
sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw, properties
rn=fw.Runner("dbg")
c=json.load(open(sys.argv[1]))["case"]
b,r=rn.judge(c)
e=fw.explicit(c,r)
b2,r2=rn.judge(e)
print(b[:2],b2[:2],fw.hashes(r),fw.hashes(r2))
print(c["phases"][0]["plan"]); print({k:str(v)[:200] for k,v in e["phases"][0]["plan"].items()})
open("/tmp/l1","w").write(r[0].log); open("/tmp/l2","w").write(r2[0].log)
rn.close()
