#!/usr/bin/env python3
# show.py ID: the last replay of a check around the rejected event
import json,sys,glob,os
p=max(glob.glob('/verif/work/replays/%s*'%sys.argv[1]),key=os.path.getmtime)
d=json.load(open(p)); at=d['rejected_at_event'] or 0
print(p,d['why'],d['cfg'],at,len(d['trace'])); 
w=int(sys.argv[2]) if len(sys.argv)>2 else 25
for i,e in enumerate(d['trace'][:at+4]):
    if i>=at-w: print(i+1, *['%s=%s'%(k,str(v)[:60]) for k,v in e.items()])
print(d['stderr'][-1500:])
