#!/usr/bin/env python3
# usage: mutants.py OUT [file...]   mutation run: every small change of the files that compiles and passes the stable
# tests is given to the quick checks (those of the file first); changes that no check notices are listed as SURVIVED
import json,os,subprocess,sys,shutil,tempfile
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first={'header.go':'C01 C14 C20 C04 C02 C07','data.go':'C05 C20 C07','littleendian.go':'C02 C05 C07','singlebyte.go':'C03 C05 C07','runlength.go':'C04 C05 C07','radolan.go':'C06 C14 C09 C05 C10 C08 C07',
 'projection.go':'C10 C11 C12 C20','projection_sphere.go':'C11','projection_wgs84.go':'C12','conversion.go':'C13 C02 C03','radolan2png/vis/vis.go':'C16 C17','radolan2png/radolan2png.go':'C19 C18','catalog.go':'C14 C20'}
files=sys.argv[2:] or list(first)
out=open(sys.argv[1],'a')
done={l.split('\t')[1] for l in open(sys.argv[1])}
env=dict(os.environ,GO111MODULE='off',GOENV='off',GOTOOLCHAIN='local',GOFLAGS='-buildvcs=false',CGO_ENABLED='0',TZ='Europe/Berlin')
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
w=tempfile.mkdtemp()
pk=os.path.join(w,'gopath/src/gitlab.cs.fau.de/since'); os.makedirs(pk); r=pk+'/radolan'
shutil.copytree('/repo',r,symlinks=True)
e=dict(env,GOPATH=w+'/gopath',GOCACHE=root+'/.cache/gocache')
ms=[json.loads(l) for l in sh('cd %s/tools/mutate && GO111MODULE=off go build -o %s/mutate main.go && cd %s && %s/mutate %s'%(root,w,r,w,' '.join(files)),root,env=env).stdout.splitlines()]
print(len(ms),'mutants')
try:
  for m in ms:
    key='%s:%d:%d %s'%(m['File'],m['Line'],m['Off'],m['What'].replace('\n',' ').replace('\t',' ')[:160])
    if key in done: continue
    p=os.path.join(r,m['File']); s=open(p,'rb').read()
    open(p,'wb').write(s[:m['Off']]+m['New'].encode()+s[m['Off']+m['Len']:])
    try:
        if sh('go build ./...',r,env=e).returncode: res='nobuild'
        else:
            try: t=sh('go test -vet=off -count=1 -run "^(TestConversion|TestParseHeaderFZ|TestParseHeaderPG|TestProject|TestResolution|Test_DE1200_WGS84)$" .',r,env=e,timeout=60).returncode
            except subprocess.TimeoutExpired: t=1
            if t: res='tested'
            else:
                res='SURVIVED'
                order=first[m['File']].split()
                for c in order:
                    x=sh('VERIF_REPO=%s timeout 600 bash run.sh %s quick'%(r,c),root)
                    if x.returncode==1 and 'VIOLATION' in x.stdout: res='caught '+c; break
                    if x.returncode!=0: res='ERROR %s rc=%d %s'%(c,x.returncode,x.stdout[-200:].replace('\n',' ')); break
    finally: open(p,'wb').write(s)
    out.write(res+'\t'+key+'\n'); out.flush()
finally: shutil.rmtree(w,ignore_errors=True)
