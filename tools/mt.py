#!/usr/bin/env python3
# mt.py file old new check...   : apply a textual mutation in a scratch copy and run checks
import sys,subprocess,shutil,os
f,old,new,*checks=sys.argv[1:]
d='/tmp/mrepo%d'%os.getpid()
subprocess.run(['cp','-a','/repo',d],check=True)
try:
    p=d+'/'+f
    s=open(p).read()
    if '@@' in old:
        old,n=old.split('@@'); n=int(n)
        parts=s.split(old)
        assert len(parts)>n, 'occurrence'
        s=old.join(parts[:n])+new+old.join(parts[n:])
    else:
        assert s.count(old)==1,('count',s.count(old))
        s=s.replace(old,new)
    open(p,'w').write(s)
    os.makedirs('/tmp/mv/evidence',exist_ok=True)
    if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt','/tmp/mv/')
    for c in checks:
        r=subprocess.run(['/tmp/vcol','check',c,'--repo='+d,'--verif=/tmp/mv'],capture_output=True,text=True)
        print(c,'exit',r.returncode); print((r.stdout+r.stderr)[:int(os.environ.get('N','1200'))])
finally:
    shutil.rmtree(d)
