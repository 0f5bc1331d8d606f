#!/usr/bin/env python3
"""mkseed.py SPEC.py...: creates seeded/<id>/ from spec files defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)] and
DEMO (Go test file), BODY (body of the test, with the helpers of tools/demo_head.go) or DEMO_SH."""
import sys,os,subprocess,json,runpy,tempfile,re
def sh(*a,**k): return subprocess.check_output(a,**k).decode()
for spec in sys.argv[1:]:
    ns=runpy.run_path(spec); d='/verif/seeded/'+ns['ID']; os.makedirs(d,exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x',shell=True)
        for f,o,n in ns['EDITS']:
            p=t+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        subprocess.call('. /opt/vp/env.sh; gofmt -l '+' '.join(f for f,_,_ in ns['EDITS']),shell=True,cwd=t,executable='/bin/bash')
        diff=sh('git','diff',cwd=t); open(d+'/patch.diff','w').write(diff)
    f=None; orig=ours=0
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f=l[6:]; bl=sh('git','-C','/repo','blame','-s','HEAD','--',f).split('\n')
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and f: 
            if bl[n-1].startswith('^'): orig+=1
            else: ours+=1; print('  not original:',l)
            n+=1
        elif l.startswith(' '): n+=1
    print(ns['ID'],'original lines changed',orig,'ours',ours)
    open(d+'/demo.sh','w').write(ns.get('DEMO_SH') or open('/verif/tools/demo.sh.tpl').read()); os.chmod(d+'/demo.sh',0o755)
    demo=ns.get('DEMO')
    if 'BODY' in ns: demo=open('/verif/tools/demo_head.go.txt').read()+'\nfunc TestPlantedDemo(t *testing.T) {\n'+ns['BODY']+'}\n'
    if demo: open(d+'/demo_test.go','w').write(demo)
    json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
