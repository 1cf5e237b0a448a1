#!/usr/bin/env python3
"""Quietness on refactored copies: usage rf.py CHECKER REFACTOR KIND[,KIND..] [ONLY-REGEXP] [PROPS]
KINDs joined by + are applied one after another. Development aid; no registered command runs this."""
import sys,subprocess,os,shutil,tempfile,json,concurrent.futures as cf
ck,rf=sys.argv[1:3]; only=sys.argv[4] if len(sys.argv)>4 else ''
props=sys.argv[5].split(',') if len(sys.argv)>5 else [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] if 'checks' in json.load(open('/verif/MANIFEST.json')) else None
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GOSUMDB='off')
def sh(c,d): return subprocess.run(c,shell=True,cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
for kinds in sys.argv[3].split(','):
    d=tempfile.mkdtemp(prefix='rf_',dir='/tmp')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C '+d,shell=True)
        ok=True
        for k in kinds.split('+'):
            r=sh('%s -dir %s -kind %s -only %r'%(rf,d,k,only),d)
            print(kinds,r.stdout.strip()[-300:] if os.environ.get('V') else r.stdout.strip()[-60:],flush=True)
            if r.returncode: ok=False; break
        if not ok: continue
        r=sh('pk=$(go list -e ./... | grep -v cmd/web); go build $pk && go test -vet=off -count=1 $pk 2>&1 | grep -v "no test files"',d)
        if 'FAIL' in r.stdout or r.returncode>1 or '.go:' in r.stdout:
            print('  does not build or pass:',r.stdout[:1500]); 
            if os.environ.get('KEEP'): print(d)
            continue
        def one(p):
            try:
                r=subprocess.run([ck,'-repo',d,'-property',p,'-evidence',d+'/e_'+p+'.json','-known','/verif/known_findings.txt'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=600)
            except subprocess.TimeoutExpired: return '  ALARM %s TIMEOUT'%p
            if r.returncode: 
                l=[x for x in r.stdout.strip().split('\n') if not x.startswith('VIOLATION') and not x.startswith('KNOWN')]
                return '  ALARM %s %d: '%(p,len(l))+'\n       '.join(x[:int(os.environ.get('W','330'))] for x in l[:int(os.environ.get('N','4'))])
            return None
        with cf.ThreadPoolExecutor(5) as ex:
            for o in ex.map(one,props):
                if o: print(o,flush=True)
    finally:
        if os.environ.get('KEEP'): print('kept',d)
        else: shutil.rmtree(d)
