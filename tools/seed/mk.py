#!/usr/bin/env python3
"""mk.py [ID...]: writes /verif/seeded/ID from bugs/ID.py (dict B: property, needs, breaks, edits [(file, old, new)], demo, pbf, race), and confirms it."""
import sys, os, json, subprocess, tempfile, shutil, glob
here=os.path.dirname(os.path.abspath(__file__)); seeded=os.path.join(here,'..','..','seeded'); seeded=os.path.normpath(seeded)
def sh(cmd,cwd,timeout=300):
    p=subprocess.run(['bash','-c','. /opt/vp/env.sh; '+cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return p.returncode,p.stdout
base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
ids=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(here,'bugs','*.py')))
for i in ids:
    ns={}; exec(open(os.path.join(here,'bugs',i+'.py')).read(),ns); B=ns['B']
    t=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        r=os.path.join(t,'repo'); shutil.copytree('/repo',r,symlinks=True)
        d=os.path.join(seeded,i)
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        s=open(os.path.join(here,'demo.sh')).read().replace(' RACEFLAG',' -race' if B.get('race') else '')
        if not B.get('cli',True): s=s.replace([l for l in s.split('\n') if l.startswith('go build')][0]+'\n','')
        open(os.path.join(d,'demo.sh'),'w').write(s); os.chmod(os.path.join(d,'demo.sh'),0o755)
        open(os.path.join(d,'demo.go'),'w').write(B['demo'].lstrip('\n'))
        if B.get('pbf',True): shutil.copy(os.path.join(here,'pbf.go'),d)
        rc0,o0=sh(os.path.join(d,'demo.sh'),r)
        for f,old,new in B['edits']:
            p=os.path.join(r,f); x=open(p).read()
            assert x.count(old)==1,(i,f,x.count(old),old)
            open(p,'w').write(x.replace(old,new))
        bad=[f for f,_,_ in B['edits'] if sh('gofmt -l '+f,r)[1].strip()]
        patch=subprocess.check_output(['git','-C',r,'diff'],text=True)
        open(os.path.join(d,'patch.diff'),'w').write(patch)
        # lines taken away must be the original's
        orig=0; mine=0
        for f in {f for f,_,_ in B['edits']}:
            bl=subprocess.check_output(['git','-C',r,'diff','-U0','--',f],text=True)
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',bl,re.M):
                a,n=int(m[1]),int(m[2] or 1)
                for k in range(a,a+n):
                    h=subprocess.check_output(['git','-C',r,'blame','-l','-s','-L',f'{k},{k}','HEAD','--',f],text=True).split()[0].lstrip('^')
                    if base.startswith(h) : orig+=1
                    else: mine+=1
        json.dump({"property":B['property'],"needs":B['needs'],"what_it_breaks":B['breaks']},open(os.path.join(d,'meta.json'),'w'),indent=1)
        rcb,ob=sh('go build ./... && go vet ./internal/... >/dev/null; go build ./...',r)
        rct,ot=sh('go test ./...',r)
        rc1,o1=sh(os.path.join(d,'demo.sh'),r)
        ok=rc0==0 and rc1!=0 and rcb==0 and rct==0 and orig>0 and not bad
        print(i,B['property'],'OK' if ok else 'BAD',f'demo base {rc0} patched {rc1} build {rcb} test {rct} original lines {orig} own {mine}',('unformatted '+str(bad)) if bad else '')
        if not ok:
            print('--- base:',o0[-1500:]); print('--- patched:',o1[-1500:]); print(ob[-500:]); 
            if rct: print(ot[-800:])
        else:
            ls=[l for l in o1.split('\n') if 'demo' in l or 'panic' in l or 'RACE' in l][:2]; print('    ',' | '.join(ls)[:200])
    finally: shutil.rmtree(t)
