#!/bin/bash
# bt.sh REPLAY: the stack of a crashing replay
cd /verif/sim
VSIM_BT=1 python3 - "$1" <<'E2'
import sys,json,re,subprocess
sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw, properties
rn=fw.Runner("bt")
c=json.load(open(sys.argv[1]))["case"]
b,r=rn.judge(c)
print(b[:1])
e=r[-1].err
a=re.findall(r"simfl[^\[\n]*\[(0x[0-9a-f]+)\]",e)
print(len(a)); exe=rn.out+"/bin/simfl"
pie=subprocess.run(["readelf","-h",exe],capture_output=True,text=True).stdout
off=0x555555554000 if "DYN" in pie else 0
print(subprocess.run(["addr2line","-fpe",exe]+[hex(int(x,16)-off) for x in a],capture_output=True,text=True).stdout)
rn.close()
E2
