"""gdbrun.py REPLAY [gdb commands...]: the replay's first phase under gdb."""
import sys,json,os,subprocess,time
sys.path.insert(0,'/verif/sim'); sys.path.insert(0,'/verif/sim/wl')
import framework as fw, properties
rn=fw.Runner("gdb")
c=json.load(open(sys.argv[1]))["case"]
srv=rn.server(c["phases"][0]["config"])
cmds=["set pagination off","set follow-fork-mode child","set detach-on-fork on","handle SIGINT nostop noprint pass","handle SIGPIPE nostop noprint pass","continue"]+sys.argv[2:]
a=["gdb","-q","-p",str(srv.p.pid),"-batch"]
for x in cmds: a+=["-ex",x]
g=subprocess.Popen(a,stdout=open("/tmp/gdb.out","w"),stderr=subprocess.STDOUT)
time.sleep(4)
try: rn.judge(c,cap=30)
except Exception as e: print(e)
try: g.wait(10)
except Exception: g.kill()
rn.close()
print(open("/tmp/gdb.out").read()[-5000:])
