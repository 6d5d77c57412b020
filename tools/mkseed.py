#!/usr/bin/env python3
"""mkseed.py: (re)creates /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and validates them:
applies to /repo, builds, runs the stable tests and the demo, runs the property's check, and undoes the change.
usage: mkseed.py [-n(o validation)] [ids...]"""
import sys,os,subprocess,json,glob,time
V='/verif'; R='/repo'
SEEDS={}
def seed(id,prop,edits,demo,needs,breaks): SEEDS[id]=dict(prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)
for f in sorted(glob.glob(V+'/tools/seeds/*.py')): exec(open(f).read())
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def clean(): sh('git -C /repo checkout -- .')
def main():
    noval='-n' in sys.argv; ids=[a for a in sys.argv[1:] if a!='-n'] or list(SEEDS)
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip()=='',"repo dirty"
    for i in ids:
        s=SEEDS[i]; d='%s/seeded/%s'%(V,i); os.makedirs(d,exist_ok=True)
        try:
            for f,a,b in s['edits']:
                p=R+'/include/tdzdd/'+f; t=open(p).read()
                if t.count(a)!=1: print(i,'EDIT NOT UNIQUE',f,t.count(a),repr(a[:60])); raise SystemExit
                open(p,'w').write(t.replace(a,b))
            open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
            open(d+'/demo.cpp','w').write(s['demo'])
            open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch\nhere="$(cd "$(dirname "$0")" && pwd)"\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\ng++ -O1 -std=c++11 -DNDEBUG -w -I"$PWD/include" "$here/demo.cpp" -o "$t/demo" || exit 3\ntimeout 120 "$t/demo"\n')
            os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
            if noval: continue
            b=sh('bash /opt/vp/build.sh'); t=sh('bash /opt/vp/test.sh /tmp/seed_out.json') if b.returncode==0 else None
            res=json.load(open('/tmp/seed_out.json')) if t else None
            demo1=sh('cd /repo && bash %s/demo.sh'%d)
            t0=time.time(); c=sh('cd /verif && python3-vt check.py %s'%s['prop']); dt=time.time()-t0
        finally: clean()
        demo0=sh('cd /repo && bash %s/demo.sh'%d)
        v=[l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        print('%-22s build=%d tests=%s demo(patched)=%d demo(clean)=%d check=%d %.0fs %s'%(i,b.returncode,'%d/%d'%(len(res['passed']),len(res['passed'])+len(res['failed'])) if res else '-',demo1.returncode,demo0.returncode,c.returncode,dt,v[0] if v else 'MISSED: '+c.stdout[-300:]),flush=True)
    sh('bash /opt/vp/build.sh')
main()
