#!/usr/bin/env python3
"""Development tool (no check uses it): plant one bug described by a spec file.
spec (python): ID, PROPERTY, NEEDS, BREAKS, EDITS=[(old,new[,nth])], DEMO (C++ source), FLAGS (list of compile lines)
Keeps seeded/<ID>/ when: builds, stable tests pass, demo 0 clean / nonzero patched."""
import sys,os,subprocess,json,runpy,shutil,tempfile
R='/repo'; H=R+'/include/opt/option.hpp'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(spec):
    s=runpy.run_path(spec); d='/verif/seeded/'+s['ID']; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'dirty repo'
    src=open(H).read(); base=sh('git -C /repo show 89edb61:include/opt/option.hpp').stdout
    for e in s['EDITS']:
        old,new=e[0],e[1]; nth=e[2] if len(e)>2 else None
        n=src.count(old)
        if nth is None: assert n==1,(n,old)
        else: assert n>nth,(n,old)
        i=-1
        for _ in range((nth or 0)+1): i=src.index(old,i+1)
        src=src[:i]+new+src[i+len(old):]
    open(d+'/demo.cpp','w').write(s['DEMO'])
    lines=s.get('FLAGS',['g++ -std=c++17 -O1','g++ -std=c++20 -O1'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
for cc in %s; do
    $cc -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" 2>"$tmp/err" || { head -c 2000 "$tmp/err"; exit 3; }
    timeout 60 "$tmp/demo" || { echo "demo failed: $cc"; exit 1; }
done
exit 0
'''%' '.join("'%s'"%l for l in lines)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['PROPERTY'],'needs':s['NEEDS'],'what_it_breaks':s['BREAKS']},open(d+'/meta.json','w'),indent=1)
    tmp=tempfile.mkdtemp(); dd=tmp+'/x'; shutil.copytree(d,dd)
    ok=True
    r=sh(f'bash {dd}/demo.sh',cwd=R)
    if r.returncode: print('DEMO FAILS CLEAN',r.stdout[:1500]); ok=False
    try:
        open(H,'w').write(src)
        p=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(p)
        if ok:
            r=sh(f'bash {dd}/demo.sh',cwd=R); print('patched demo rc',r.returncode,r.stdout[-300:])
            if r.returncode==0: ok=False; print('DEMO PASSES PATCHED')
        if ok:
            r=sh('bash /opt/vp/build.sh')
            if r.returncode: print('BUILD FAILS',r.stdout[-800:]); ok=False
        if ok:
            r=sh('bash /opt/vp/test.sh /tmp/o.json'); b=sh('python3 /tmp/base.py').stdout
            if 'missing []' not in b: print('TESTS CATCH',b[:400]); ok=False
        if ok and os.environ.get('CHK','1')=='1':
            pid=s['PROPERTY']
            cmd=[c for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c.get('property',c.get('property_id'))==pid] if True else []
            if cmd:
                import time;t=time.time()
                r=sh('VERIF_SEED=1 VERIF_TIER=quick '+cmd[0]['quick_cmd'],cwd='/verif',timeout=1000)
                print('CHECK rc',r.returncode,int(time.time()-t),'s',[l for l in r.stdout.splitlines() if 'VIOLATION' in l][:2])
            else: print('no check for',pid)
    finally:
        sh('git -C /repo checkout -- .')
    shutil.rmtree(tmp)
    if not ok: shutil.rmtree(d); print('REJECTED',s['ID'])
    else: print('KEPT',s['ID'])
for x in sys.argv[1:]: print('==',x); main(x)
