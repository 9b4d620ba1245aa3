"""detdiff.py PID INDEX [SEED]: run one case twice, show where the logs differ."""
import sys
sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw, properties
p=properties.PROPS[sys.argv[1]]
c=fw.gen_case(sys.argv[1],p["gens"],int(sys.argv[3]) if len(sys.argv)>3 else 1,int(sys.argv[2]))
rn=fw.Runner("dd")
b1,r1=rn.judge(c); b2,r2=rn.judge(c)
print(c["wl"],b1[:3],b2[:3])
for x,y in zip(r1,r2):
    l1,l2=x.log.split("\n"),y.log.split("\n")
    for i,(a,b) in enumerate(zip(l1,l2)):
        if a!=b:
            print(i,l1[max(0,i-4):i+3],"\n",l2[max(0,i-4):i+3]); break
    print(len(l1),len(l2),x.hash,y.hash)
rn.close()
