#!/usr/bin/env python3
"""mut.py BUDGET [ID...]: apply each mutant of tools/mutants/*.py to a scratch copy and run its property's check."""
import glob,os,subprocess,sys,tempfile,shutil,json,time
M={}
def mut(id,prop,edits,note): M[id]=(prop,edits,note)
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__))+'/mutants/*.py')): exec(open(f).read())
b=sys.argv[1]; ids=sys.argv[2:] or sorted(M)
for i in ids:
    prop,edits,note=M[i]
    prop=os.environ.get('PROP',prop)
    w=tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.check_call(['cp','-a','/repo',w+'/r'])
        bad=False
        for f,o,n in edits:
            s=open(w+'/r/'+f).read()
            if s.count(o)<1: print(i,'NO MATCH',f,repr(o[:60])); bad=True; break
            open(w+'/r/'+f,'w').write(s.replace(o,n,1))
        if bad: continue
        p=subprocess.run(['bash','/verif/build.sh',w+'/b'],env=dict(os.environ,TCPX_REPO=w+'/r'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: print(i,'BUILD',p.stdout[-400:]); continue
        t=time.time()
        p=subprocess.run([w+'/b/harness.bin','check','-prop',prop,'-out',w+'/ev','-budget',b],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        m=''
        for f in glob.glob(w+'/ev/replays/*.json'):
            m=json.load(open(f))['message'][:160]; os.makedirs('/tmp/rp',exist_ok=True); shutil.copy(f,'/tmp/rp/%s.json'%i)
        print(i,prop,'CAUGHT' if p.returncode==1 else 'rc=%d'%p.returncode,'%.0fs'%(time.time()-t),note,'|',m,flush=True)
        if p.returncode not in (0,1): print(p.stdout[-600:])
    finally: shutil.rmtree(w)
