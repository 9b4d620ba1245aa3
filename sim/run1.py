import sys,json
sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw, properties
rn=fw.Runner("one")
c=json.load(open(sys.argv[1]))["case"]
b,r=rn.judge(c,cap=20); print(r[0].how,b[:2])
if len(sys.argv)>2: print(r[0].log)
rn.close()
