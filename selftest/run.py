#!/usr/bin/env python3
"""Sensitivity and quietness of the rules on edited copies of the repository.

Each case edits a scratch copy of /repo: 'bug' cases must be reported by the property's
check, 'same' cases keep the behaviour and must be passed. Development aid; no registered
command runs this.   usage: run.py CHECKER [PROP ...]
"""
import sys, subprocess, os, shutil, tempfile, concurrent.futures as cf, glob
here=os.path.dirname(os.path.abspath(__file__))
ck=sys.argv[1]; want=set(sys.argv[2:])
cases=[]
def bug(props,*edits): cases.append((props,1,edits))
def same(props,*edits): cases.append((props,0,edits))
for f in sorted(glob.glob(here+'/cases_'+os.environ.get('CASES','*')+'.py')):
    exec(compile(open(f).read(),f,'exec'))
def one(i):
    props,exp,edits=cases[i]
    props=[p for p in props.split(',') if not want or p in want]
    if not props: return []
    d=tempfile.mkdtemp(prefix='st%d_'%i,dir='/tmp')
    out=[]
    try:
        for n in subprocess.check_output(['git','-C','/repo','ls-files'],text=True).split('\n'):
            if n.endswith('.go') or n in('go.mod','go.sum') or n.endswith('.toml'):
                os.makedirs(os.path.dirname(d+'/r/'+n),exist_ok=True)
                shutil.copy('/repo/'+n,d+'/r/'+n)
        for f,o,n in [edits[j:j+3] for j in range(0,len(edits),3)]:
            s=open(d+'/r/'+f).read()
            if o not in s: return ['case %d %s: text not found in %s: %r'%(i,props,f,o[:80])]
            open(d+'/r/'+f,'w').write(s.replace(o,n,1))
        for p in props:
            r=subprocess.run([ck,'-repo',d+'/r','-property',p,'-evidence',d+'/e.json','-known','/verif/known_findings.txt'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            bad = r.returncode!=exp or (exp==1 and '[load]' in r.stdout)
            if bad or os.environ.get('V'):
                out.append('%s case %d %s expected %d got %d: %s\n     %s'%('WRONG' if bad else 'ok',i,p,exp,r.returncode,repr(edits[2][:120]),'\n     '.join(r.stdout.strip().split('\n')[:3])[:700]))
    finally:
        shutil.rmtree(d)
    return out
with cf.ThreadPoolExecutor(8) as ex:
    n=0
    for o in ex.map(one,range(len(cases))):
        for l in o: print(l)
        n+=1
print(n,'cases')
