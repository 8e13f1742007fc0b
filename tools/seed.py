#!/usr/bin/env python3
"""seed.py SPEC.py : SPEC defines id, property, file, edits[(old,new)], demo (c++), needs, breaks, [flags], [shims]"""
import sys,subprocess,os,json,shutil,runpy
R=os.environ.get('SEED_REPO','/repo'); V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))  # SEED_REPO: a clone, without build and tests
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for spec in sys.argv[1:]:
    S=runpy.run_path(spec); sid=S['id']; d=f'{V}/seeded/{sid}'
    assert sh('git -C '+R+' status --porcelain').stdout.strip()=='' , 'repo dirty'
    os.makedirs(d,exist_ok=True)
    edits=S['edits']; 
    files=S.get('file')
    for e in edits:
        f,o,n = e if len(e)==3 else (files,*e)
        p=f'{R}/{f}'; s=open(p).read()
        assert s.count(o)==1,(sid,'count',s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    diff=sh(f'git -C {R} diff').stdout
    open(d+'/patch.diff','w').write(diff)
    sh(f'git -C {R} checkout -- .')
    open(d+'/demo.cpp','w').write(S['demo'])
    inc='-Isrc/core/include -Isrc/serialiser/include -Isrc/disruptor/include -Isrc/majordomo/include -Isrc/zmq/include -Isrc/client/include -Isrc/rest/include -Isrc/services/include -I3rd_party/kainjow'
    if S.get('shims'):
        for x in S['shims']:
            src=f'{V}/shims/{x}'
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src,f'{d}/{x}',**({'dirs_exist_ok':True} if os.path.isdir(src) else {}))
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: property holds; exit 1: broken
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++-14 -std=c++23 -O1 -g -w {S.get("flags","")} -I"$here" {inc} "$here/demo.cpp" -o "$out/demo" {S.get("libs","-pthread")} || exit 3
cd "$out" && timeout {S.get("timeout",120)} "$out/demo"
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':S['property'],'needs':S['needs'],'what_it_breaks':S['breaks']},open(d+'/meta.json','w'),indent=1)
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=R,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    sh(f'git -C {R} apply {d}/patch.diff')
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=R,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    skip='true #' if R!='/repo' else ''; b=sh(skip+'bash /opt/vp/build.sh'); t=sh(skip+'bash /opt/vp/test.sh /tmp/sd/o.json')
    o=json.load(open('/tmp/sd/o.json')) if os.path.exists('/tmp/sd/o.json') else {}
    chk=''
    if '--nocheck' not in os.environ.get('SEED',''):
        for c in S.get('checks',[S['property']]):
            c0=subprocess.run([V+'/check',c],env={**os.environ,'VERIF_REPO':R},stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            chk+=f' check {c} rc={c0.returncode} '+(' '.join(l for l in c0.stdout.splitlines() if 'PBT-VIOL' in l)[:180])
    sh(f'git -C {R} checkout -- .')
    ok = r0.returncode==0 and r1.returncode not in (0,3) and b.returncode==0 and t.returncode==0
    print(sid,'OK' if ok else 'BAD',f'demo0={r0.returncode} demo1={r1.returncode} build={b.returncode} test={t.returncode}',t.stdout.strip().splitlines()[-1] if t.stdout.strip() else '',chk,flush=True)
    if not ok: print(r0.stdout[-1500:],r1.stdout[-1500:],b.stdout[-1500:] if b.returncode else '')
