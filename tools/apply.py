#!/usr/bin/env python3
# apply.py SPEC NAME DIR: a scratch copy of /repo with one variant applied
import sys, runpy, subprocess, shutil, os
v=[v for v in runpy.run_path(sys.argv[1])['V'] if v['name']==sys.argv[2]][0]
d=sys.argv[3]
if os.path.exists(d): shutil.rmtree(d)
subprocess.run(['cp','-a','/repo',d],check=True)
for e in v['edits']:
    f,old,new=e[:3]; p=d+'/'+f
    s=open(p).read() if os.path.exists(p) else ''
    if old=='': s+=new
    elif len(e)>3 and e[3]=='all': s=s.replace(old,new)
    elif len(e)>3:
        parts=s.split(old); n=e[3]; s=old.join(parts[:n])+new+old.join(parts[n:])
    else: s=s.replace(old,new)
    open(p,'w').write(s)
