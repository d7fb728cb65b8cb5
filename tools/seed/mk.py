"""seed maker: mk.py specfile.py [ids]; each spec: dict(id,prop,edits=[(file,old,new)],needs,breaks,demo, [sh])"""
import sys,os,json,subprocess,shutil,runpy
SD='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
specs=runpy.run_path(sys.argv[1])['S']
only=set(sys.argv[2:])
assert sh('git -C /repo status --porcelain').stdout==''
for s in specs:
    if only and s['id'] not in only: continue
    d=f"{SD}/{s['id']}"
    os.makedirs(d,exist_ok=True)
    okc=True
    for f,o,n in s['edits']:
        p='/repo/'+f; t=open(p).read()
        if t.count(o)!=1:
            print(s['id'],'PATTERN COUNT',t.count(o),f); okc=False; break
        open(p,'w').write(t.replace(o,n))
    if not okc:
        sh('git -C /repo checkout -- .'); shutil.rmtree(d); continue
    diff=sh('git -C /repo diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.c','w').write('#include "dt.h"\n'+s['demo'])
    shutil.copy('/tmp/sd/dt.h',d); 
    open(d+'/demo.sh','w').write(s.get('sh') or open('/tmp/sd/demo.sh').read()); os.chmod(d+'/demo.sh',0o755)
    for k,v in s.get('files',{}).items(): open(d+'/'+k,'w').write(v)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    r=sh('bash /opt/vp/build.sh')
    if r.returncode: print(s['id'],'BUILD FAIL',r.stdout[-1500:]); sh('git -C /repo checkout -- .'); continue
    dem=sh(f'bash {d}/demo.sh',cwd='/repo')
    t=sh('bash /opt/vp/test.sh /tmp/sd/out.json')
    base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/sd/out.json'))
    want=set(base['stable'])
    miss=sorted(want-set(out['passed']))
    chk=''
    if not miss and dem.returncode and not s.get('nocheck'):
        for c in [s['prop']]+s.get('also',[]):
            r=sh(f'cd /verif && python3 check.py {c} --seed 1 --tier quick')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            chk+=f' {c}:rc={r.returncode}{" CAUGHT" if v and r.returncode==1 else " missed"}'
            if v: chk+=' ['+r.stdout.strip().splitlines()[-1][:100]+']' if False else ''
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    dem0=sh(f'bash {d}/demo.sh',cwd='/repo')
    print(s['id'],'demo patched rc',dem.returncode,'clean rc',dem0.returncode,'tests missing',miss,chk,flush=True)
    if dem0.returncode or not dem.returncode or miss: shutil.rmtree(d)
    if dem0.returncode: print(dem0.stdout[-600:])
    if dem.returncode==0: print('  not demonstrated', dem.stdout[-300:])
