#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE OLD NEW [OLD NEW ...] : run check against a mutated copy"""
import sys,subprocess,os,shutil,tempfile
REPO=os.environ.get('VERIF_REPO','/repo'); V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs('/tmp/m',exist_ok=True)
checks=sys.argv[1].split(','); f=sys.argv[2]
d=tempfile.mkdtemp(prefix='mut-',dir='/tmp/m')
subprocess.check_call(['cp','-a',f'{REPO}/src',f'{REPO}/3rd_party',d])
p=f'{d}/{f}'; s=open(p).read()
a=sys.argv[3:]
for o,n in zip(a[::2],a[1::2]):
    if s.count(o)<1: print('NOT FOUND',o); sys.exit(9)
    s=s.replace(o,n,1)
open(p,'w').write(s)
for c in checks:
    r=subprocess.run([V+'/check',c],env=dict(os.environ,VERIF_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    L=r.stdout.strip().splitlines()
    v=[l for l in L if 'PBT-VIOLATION' in l]
    print(f'{c} rc={r.returncode}', (v[0][:230] if v else (L[-1][:300] if L else '')), '   <<', a[1].strip()[:80])
shutil.rmtree(d)
