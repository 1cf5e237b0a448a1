#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each one in a scratch copy of /repo.

usage: seed.py CHECKER [ID ...]      (development aid; no registered command runs it)
"""
import sys,os,subprocess,shutil,tempfile,json,concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__)); top=os.path.dirname(here)
ck=sys.argv[1]; want=set(sys.argv[2:])
S=[]
def seed(id,prop,edits,needs,breaks,go=None,sh=None,also=''):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,go=go,sh=sh,also=also))
exec(compile(open(here+'/seeds.py').read(),'seeds.py','exec'))
ENV='export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off\n'
GO='''#!/bin/bash
# exit 0: the property holds for this case; run in /repo
here=$(cd "$(dirname "$0")" && pwd)
'''+ENV+'''t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$here" > "$t/overlay.json"
go test -vet=off -overlay "$t/overlay.json" -count=1 -run '^TestDemo$' ./%s
'''
SH='''#!/bin/bash
# exit 0: the property holds for this case; run in /repo
'''+ENV+'''t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
go build -o "$t/goledger" . || exit 3
export HOME=$t XDG_CONFIG_HOME=$t/cfg GOLEDGER_CONF=$t/goledger.toml LANG=en
gl(){ "$t/goledger" --colour=false -l "$t/main.ledger" "$@"; }
cd "$t" || exit 3
'''
def run(cmd,cwd,env=None):
    return subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env)
def do(s):
    out=[]
    d='%s/seeded/%s'%(top,s['id']); os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='seed_%s_'%s['id'],dir='/tmp')
    try:
        r=t+'/repo'
        subprocess.check_call(['git','clone','-q','/repo',r])
        for i in range(0,len(s['edits']),3):
            f,o,n=s['edits'][i:i+3]
            x=open(r+'/'+f).read()
            if x.count(o)<1: return ['%s: text not found in %s: %r'%(s['id'],f,o[:60])]
            open(r+'/'+f,'w').write(x.replace(o,n,1))
        diff=run(['git','diff'],r).stdout
        base=set()
        for f in set(s['edits'][0::3]):
            b=run(['git','blame','-s',f,'HEAD'],r).stdout.split('\n')
            dl=run(['git','diff','-U0',f],r).stdout.split('\n')
            for h in dl:
                if h.startswith('@@'):
                    a=h.split()[1][1:].split(','); st=int(a[0]); n=int(a[1]) if len(a)>1 else 1
                    for k in range(st,st+n):
                        base.add('c9fbb5a' in b[k-1][:10])
        if True not in base: out.append('%s: changes no line of the original'%s['id'])
        open(d+'/patch.diff','w').write(diff)
        if s['go']:
            pkg,code=s['go']
            open(d+'/demo.go.txt','w').write(code.lstrip('\n'))
            open(d+'/demo.sh','w').write(GO%(pkg,pkg))
        else:
            if os.path.exists(d+'/demo.go.txt'): os.remove(d+'/demo.go.txt')
            open(d+'/demo.sh','w').write(SH+s['sh'].lstrip('\n'))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
        env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
        b=run('pk=$(go list -e ./... | grep -v cmd/web); go build $pk && go test -vet=off -count=1 $pk 2>&1 | grep -v "no test files"',r,env) if False else subprocess.run('pk=$(go list -e ./... | grep -v cmd/web); go build $pk && go test -vet=off -count=1 $pk',shell=True,cwd=r,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if b.returncode: out.append('%s: does not build or pass: %s'%(s['id'],b.stdout[-600:]))
        p=run([d+'/demo.sh'],r,env)
        if p.returncode==0: out.append('%s: demo passes with the patch'%s['id'])
        bad=p.stdout
        run(['git','checkout','-q','.'],r)
        p=run([d+'/demo.sh'],r,env)
        if p.returncode!=0: out.append('%s: demo fails without the patch: %s'%(s['id'],p.stdout[-800:]))
        if os.environ.get('V'): out.append('%s with patch: %s'%(s['id'],bad[-500:]))
        run(['git','apply',d+'/patch.diff'],r)
        c=run([ck,'-repo',r,'-property',s['prop'],'-evidence',t+'/e.json','-known',top+'/known_findings.txt'],'/')
        out.append('%-8s %s %s'%(s['id'],s['prop'],'CAUGHT' if c.returncode==1 else 'MISSED' if c.returncode==0 else 'ERROR')+' '+c.stdout.split('\n')[0][:150])
    finally:
        shutil.rmtree(t)
    return out
with cf.ThreadPoolExecutor(5) as ex:
    for o in ex.map(do,[s for s in S if not want or s['id'] in want or s['prop'] in want]):
        for l in o: print(l)
