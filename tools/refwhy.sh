#!/bin/bash
# refwhy.sh NAME PID [RX] : development aid: why obligations of PID are undecided under a refactoring
cat > /tmp/w/mkp.py <<'P'
import sys,subprocess,tempfile
n=sys.argv[1]; g={}; exec(open("/verif/tools/refactors/%s.py"%n).read(),g)
d=tempfile.mkdtemp(dir="/tmp/w"); subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q .; git add -A; git -c user.name=x -c user.email=x@x commit -qm x"%(d,d),shell=True)
for f,o,w,*_ in g["EDITS"]:
    s=open(d+"/"+f).read(); open(d+"/"+f,"w").write(s.replace(o,w))
open("/tmp/w/rw.diff","w").write(subprocess.check_output(["git","diff"],cwd=d,text=True)); subprocess.call(["rm","-rf",d])
P
python3 /tmp/w/mkp.py $1
bash /verif/tools/under.sh /tmp/w/rw.diff bash -c "./dump.sh /tmp/w/rw.json 2>&1 | grep -E '^error' -A9; true"
B=${B:-40} python3 /verif/dev.py /tmp/w/rw.json $2 $3 2>&1 | cut -c1-${W:-300} | tail -${N:-40}
