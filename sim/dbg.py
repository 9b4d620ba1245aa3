import sys; sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw
rn=fw.Runner("dbg")
def run(lines, plan=None, cfg="lean", files=None, show=True):
    c={"phases":[{"config":cfg,"plan":dict(plan or {}),"items":[{"id":str(i),"t":l,"exp":None} for i,l in enumerate(lines)],"files":files or {}}],"seed":1,"wl":"x"}
    r=rn.run(c)[0]
    so,se=r.sections("out"),r.sections("err")
    n=0
    for l in lines:
        for x in l.split("\n"):
            n+=1
        print(">>",l[:150]); print(so.get(n,"-- none")[:1500].rstrip()); 
        if se.get(n,"").strip(): print("ERR:",se[n][:1500])
    print(r.how,r.code,r.status,r.fires[:10],r.counts)
    return r
if __name__=="__main__":
    run(sys.stdin.read().strip().split("\n"), cfg=sys.argv[1] if len(sys.argv)>1 else "lean")
    rn.close()
