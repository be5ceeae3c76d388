#!/usr/bin/env python3
"""refac.py BUDGET [ID...]: apply each behaviour-preserving change of tools/refac/*.py to a scratch copy and run every check; all must stay quiet."""
import glob,os,subprocess,sys,tempfile,shutil,json,time
R={}
def ref(id,edits,note=''): R[id]=(edits,note)
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__))+'/refac/*.py')): exec(open(f).read())
b=sys.argv[1]; ids=sys.argv[2:] or sorted(R)
props=os.environ.get('PROPS','').split() or ['C%02d'%i for i in range(1,20)]
for i in ids:
    edits,note=R[i]
    w=tempfile.mkdtemp(prefix='ref.')
    try:
        subprocess.check_call(['cp','-a','/repo',w+'/r'])
        bad=False
        for f,o,n in edits:
            if o is None:
                open(w+'/r/'+f,'w').write(n); continue
            s=open(w+'/r/'+f).read()
            if s.count(o)<1: print(i,'NO MATCH',f,repr(o[:80])); bad=True; break
            open(w+'/r/'+f,'w').write(s.replace(o,n))
        if bad: continue
        env=dict(os.environ,TCPX_REPO=w+'/r')
        p=subprocess.run(['bash','/verif/build.sh',w+'/b'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: print(i,'BUILD FAILED',p.stdout[-1500:]); continue
        res=[]
        for prop in props:
            p=subprocess.run([w+'/b/harness.bin','check','-prop',prop,'-out',w+'/ev','-budget',b],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if p.returncode:
                m=''
                for f in glob.glob(w+'/ev/replays/*.json'):
                    m=json.load(open(f))['message'][:200]; os.makedirs('/tmp/rp',exist_ok=True); shutil.copy(f,'/tmp/rp/%s.json'%i); os.remove(f)
                res.append('%s rc=%d %s %s'%(prop,p.returncode,m,'' if p.returncode==1 else p.stdout[-600:]))
        print(i,note,'QUIET' if not res else '\n   '.join(['ALARM']+res),flush=True)
    finally: shutil.rmtree(w)
