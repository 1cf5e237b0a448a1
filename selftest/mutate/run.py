#!/usr/bin/env python3
"""Mutants that compile and pass the tests, and what the checks say: usage run.py CHECKER MUTATE N SEED [WORKERS]
Prints those that no property with the function in its coverage reports. Development aid; no registered command runs this."""
import sys,subprocess,os,json,random,shutil,tempfile,glob,threading,queue,re
ck,mt,N,seed=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4]); W=int(sys.argv[5]) if len(sys.argv)>5 else 6
only=os.environ.get('ONLY','')
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GOSUMDB='off')
files=[l for l in subprocess.run("git ls-files '*.go'",shell=True,cwd='/repo',capture_output=True,text=True).stdout.split() if not l.endswith('_test.go') and 'cmd/web' not in l]
ms=json.loads(subprocess.run([mt]+files,cwd='/repo',capture_output=True,text=True).stdout)
cov={}
for f in glob.glob(os.environ.get('EV','/tmp/t/e_C*.json')):
    try: d=json.load(open(f))
    except Exception: continue
    for g in d['coverage'].get('functions',[]): cov.setdefault(g.split('$')[0].split('.')[-1],set()).add(d['property'])
slow={'C29':9,'C03':3,'C21':2,'C35':3}
src={f:open('/repo/'+f).read().split('\n') for f in files}
def keep(m):
    l=src[m['File']][m['Line']-1]
    if m['Kind']=='str' and re.search(r'Errorf|errors\.New|stop\(|panic\(|Sprintf|Short|Long|Usage|Flags\(\)',l): return False
    if only and not re.search(only,m['File']+':'+m['Fn']): return False
    return m['Fn'] in cov
ms=[m for m in ms if keep(m)]
random.Random(seed).shuffle(ms); ms=ms[:N]
q=queue.Queue()
for m in ms: q.put(m)
cnt={'nocompile':0,'tests':0,'caught':0,'missed':0}; lock=threading.Lock()
def work():
    d=tempfile.mkdtemp(prefix='mu_',dir='/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C '+d,shell=True)
    def sh(c): return subprocess.run(c,shell=True,cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    pk=' '.join(x for x in sh('go list -e ./...').stdout.split() if 'cmd/web' not in x)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=d+'/'+m['File']; s=open('/repo/'+m['File'],'rb').read()
        open(p,'wb').write(s[:m['From']]+m['New'].encode()+s[m['To']:])
        try:
            if sh('go build '+pk).returncode: cnt['nocompile']+=1; continue
            r=sh('timeout 60 go test -vet=off '+pk)
            if r.returncode: cnt['tests']+=1; continue
            hit=None
            for c in sorted(cov[m['Fn']],key=lambda c:(slow.get(c,0),c)):
                try: r=subprocess.run([ck,'-repo',d,'-property',c,'-evidence',d+'/e.json','-known','/verif/known_findings.txt'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=400)
                except subprocess.TimeoutExpired: hit=c+' TIMEOUT'; break
                if r.returncode: hit=c; break
            with lock:
                if hit: cnt['caught']+=1
                else:
                    cnt['missed']+=1
                    old=s[m['From']:m['To']].decode()
                    print('MISSED %s:%d %s [%s] %r -> %r | %s'%(m['File'],m['Line'],m['Fn'],m['Kind'],old[:80],m['New'][:80],','.join(sorted(cov[m['Fn']]))),flush=True)
        finally: open(p,'wb').write(s)
    shutil.rmtree(d)
ts=[threading.Thread(target=work) for _ in range(W)]
for t in ts: t.start()
for t in ts: t.join()
print(cnt)
