#!/usr/bin/env python3
# mut.py PROP file 'old' 'new' [file old new ...]: apply to /repo, run the check, revert
# A tool for whoever works on the checks (not used by any of them).
import sys,subprocess
prop=sys.argv[1].split(','); a=sys.argv[2:]
try:
    for i in range(0,len(a),3):
        p='/repo/'+a[i]; s=open(p).read()
        assert a[i+1] in s, "not found: "+a[i+1]
        open(p,'w').write(s.replace(a[i+1],a[i+2],1))
    for q in prop:
        r=subprocess.run(['python3','/verif/run.py',q],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        l=r.stdout.strip().splitlines()
        print(q,'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'ERROR', '|', [x[:250] for x in l if 'violation in' in x or 'error' in x][:1] or l[-2:])
finally:
    subprocess.run(['git','-C','/repo','checkout','--','.'])
