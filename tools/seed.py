#!/usr/bin/env python3
# usage: seed.py make FILE...   writes seeded/<id>/ from definition files (python, list BUGS)
#        seed.py verify [id...] checks that each planted bug counts and whether its check catches it
import json,os,subprocess,sys,tempfile,shutil
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
# exit 0 if the tree in the working directory behaves correctly
here=$(cd "$(dirname "$0")" && pwd)
tree=$PWD
tmp=$(mktemp -d) || exit 2
trap 'chmod -R u+w "$tmp"; rm -rf "$tmp"' EXIT
export GO111MODULE=off GOPATH=$tmp/gopath GOCACHE=$tmp/cache GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off CGO_ENABLED=0 TZ=Europe/Berlin
pkg=$GOPATH/src/gitlab.cs.fau.de/since/radolan
mkdir -p "$pkg" "$GOPATH/src/demo" || exit 2
(cd "$tree" && find . -name .git -prune -o -name '*.go' ! -name '*_test.go' -print0 | tar --null -T - -cf -) | tar -xf - -C "$pkg" || exit 2
cp "$here/main.go.txt" "$GOPATH/src/demo/main.go" || exit 2
%s(cd "$GOPATH/src/demo" && go build -o "$tmp/demo" .) || exit 2
mkdir "$tmp/run" && cd "$tmp/run" && timeout 120 "$tmp/demo" "$tmp/radolan2png"
'''
CLI='(cd "$pkg/radolan2png" && go build -o "$tmp/radolan2png" .) || exit 2\n'
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def make(defs):
    ns={}
    exec(open(defs).read(),ns)
    for b in ns['BUGS']:
        d=os.path.join(root,'seeded',b['id']); os.makedirs(d,exist_ok=True)
        w=tempfile.mkdtemp(); r=os.path.join(w,'repo')
        shutil.copytree('/repo',r,symlinks=True)
        for f,old,new in b['edits']:
            p=os.path.join(r,f); s=open(p).read()
            assert s.count(old)==1,(b['id'],f,old,s.count(old))
            open(p,'w').write(s.replace(old,new))
        g=' '.join(f for f in sh('gofmt -l .',r).stdout.split() if f not in ('header.go','radolan.go'))
        if g: print(b['id'],'gofmt:',g)
        diff=sh('git diff',r).stdout
        open(os.path.join(d,'patch.diff'),'w').write(diff)
        shutil.rmtree(w)
        demo=b['demo']
        open(os.path.join(d,'main.go.txt'),'w').write(demo.lstrip())
        open(os.path.join(d,'demo.sh'),'w').write(DEMO%(CLI if b.get('cli') else ''))
        os.chmod(os.path.join(d,'demo.sh'),0o755)
        json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(os.path.join(d,'meta.json'),'w'),indent=1)
def verify(ids):
    env=dict(os.environ,GO111MODULE='off',GOENV='off',GOTOOLCHAIN='local',GOFLAGS='-buildvcs=false',CGO_ENABLED='0',TZ='Europe/Berlin')
    for i in ids:
        d=os.path.join(root,'seeded',i)
        m=json.load(open(d+'/meta.json'))
        w=tempfile.mkdtemp()
        try:
            pk=os.path.join(w,'gopath/src/gitlab.cs.fau.de/since'); os.makedirs(pk)
            r=pk+'/radolan'
            shutil.copytree('/repo',r,symlinks=True)
            e=dict(env,GOPATH=w+'/gopath',GOCACHE=root+'/.cache/gocache')
            ok=sh(f'bash {d}/demo.sh',r)
            a=sh(f'git apply {d}/patch.diff',r)
            bld=sh('go build ./...',r,env=e)
            tst=sh('go test -vet=off -count=1 -run "^(TestConversion|TestParseHeaderFZ|TestParseHeaderPG|TestProject|TestResolution|Test_DE1200_WGS84)$" ./...',r,env=e)
            bad=sh(f'bash {d}/demo.sh',r)
            chk=sh(f'VERIF_REPO={r} timeout 900 bash run.sh {m["property"]} quick',root)
            caught=chk.returncode==1 and f'VIOLATION property={m["property"]} ' in chk.stdout
            status='OK' if ok.returncode==0 and a.returncode==0 and bld.returncode==0 and tst.returncode==0 and bad.returncode==1 else 'BAD'
            print(f'{i:34s} {m["property"]} {status} clean={ok.returncode} apply={a.returncode} build={bld.returncode} test={tst.returncode} demo={bad.returncode} {"CAUGHT" if caught else "MISSED rc=%d"%chk.returncode}',flush=True)
            if status=='BAD': print((ok.stdout+a.stdout+bld.stdout+(tst.stdout if tst.returncode else '')+bad.stdout)[-1500:])
            elif not caught: print(chk.stdout[-600:])
            else: print('     ',[l for l in chk.stdout.splitlines() if l.startswith(m['property']+' in')][0][:220])
        finally: shutil.rmtree(w,ignore_errors=True)
if sys.argv[1]=='make':
    for f in sys.argv[2:]: make(f)
else: verify(sys.argv[2:] or sorted(os.listdir(root+'/seeded')))
