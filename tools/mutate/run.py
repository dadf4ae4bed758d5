#!/usr/bin/env python3
"""run.py OUT.jsonl N [WORKERS] [FILE,...]: mutation sampling (a development aid, no check uses it).
Each sampled mutant is built in a scratch copy, must pass the stable tests, and then meets a short run of every
property that needs no race build. OUT.jsonl gets one line per mutant that survives the tests."""
import sys,os,json,random,subprocess,shutil,threading,queue,tempfile
out,N=sys.argv[1],int(sys.argv[2]); W=int(sys.argv[3]) if len(sys.argv)>3 else 7
files=sys.argv[4].split(',') if len(sys.argv)>4 else 'gotables.go helpers.go parser.go sort.go merge.go nest.go tree.go json.go yaml.go gob.go util.go'.split()
SEED=int(os.environ.get('MUT_SEED','1')); RUNS=os.environ.get('MUT_RUNS','1500')
PROPS=os.environ.get('MUT_PROPS','P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P14 P15 P16 P17 P18 P20 P21 P23 P24').split()
HINT={'parser.go':['P07','P05','P23'],'sort.go':['P15'],'merge.go':['P16'],'nest.go':['P17'],'tree.go':['P17'],'json.go':['P08','P24','P11'],'yaml.go':['P09','P24','P11'],'gob.go':['P10','P11'],'util.go':['P18']}
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(os.path.dirname(HERE))
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',SIM_VERIF=VERIF,TZ='Australia/Sydney')
top=tempfile.mkdtemp(prefix='/tmp/mut.')
shutil.copytree('/repo',top+'/src',symlinks=True)
subprocess.check_call(['go','build','-o',top+'/mutgen',HERE+'/main.go'],env=dict(env,GO111MODULE='off',GOFLAGS=''))
muts=[]
for f in files:
    muts+=[json.loads(l) for l in subprocess.check_output([top+'/mutgen',top+'/src/'+f]).splitlines()]
random.Random(SEED).shuffle(muts)
done=set()
if os.path.exists(out):
    for l in open(out): 
        d=json.loads(l); done.add((d['file'],d['off'],d['new']))
if os.environ.get('MUT_ONLY'): # lines of an earlier OUT
    muts=[json.loads(l) for l in open(os.environ['MUT_ONLY'])]
muts=[m for m in muts[:N] if (m['file'],m['off'],m['new']) not in done]
b=json.load(open('/opt/vp/BASELINE.json'))
for k in ('stable','passed','pass','tests'):
    if k in b:
        v=b[k]; stable=set(v if isinstance(v,list) else [t for t,s in v.items() if s in('pass','passed',True)]); break
q=queue.Queue()
for m in muts: q.put(m)
lock=threading.Lock(); fo=open(out,'a'); stats={'nobuild':0,'tests':0,'caught':0,'SURVIVED':0}
def sh(cmd,cwd,timeout,**kw):
    p=subprocess.Popen(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=kw.get('env',env),start_new_session=True)
    try: o,_=p.communicate(timeout=timeout); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 'timeout',''
def one(m,D):
    R=D+'/repo'; p=R+'/'+m['file']; src=open(top+'/src/'+m['file'],'rb').read()
    try:
        new=m['new'].encode()
        open(p,'wb').write(src[:m['off']]+new+src[m['end']:])
        rc,o=sh(['go','build','.'],R,120)
        if rc!=0: return 'nobuild',''
        rc,o=sh(['go','test','-json','-vet=off','-count=1','-timeout','60s','.'],R,120)
        if rc=='timeout': return 'tests',''
        ok,bad=set(),set()
        for l in o.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Test') and e['Action'] in('pass','fail'): (ok if e['Action']=='pass' else bad).add(e['Test'])
        for x in stable:
            if not any(x==t or x.endswith('::'+t) or x.endswith('/'+t) or x.endswith('.'+t) for t in ok if x.endswith(t)) : return 'tests',x
        rc,o=sh([VERIF+'/sim/build.sh',D+'/b','plain',R],D,300)
        if rc!=0: return 'nobuild','sim '+o[-300:]
        order=HINT.get(m['file'],[])
        for pr in order+[x for x in PROPS if x not in order]:
            w=D+'/wire'; 
            with open(w,'wb') as f:
                fd=f.fileno()
                pp=subprocess.Popen(['bash','-c','exec 3>"$0"; exec "$@"',w,D+'/b/sim','worker',pr,'quick','1','0',RUNS],cwd=D,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=dict(env,SIM_SCRATCH=D+'/scr'),start_new_session=True)
                try: rc=pp.wait(timeout=200)
                except subprocess.TimeoutExpired: os.killpg(pp.pid,9); pp.wait(); return 'caught',pr+' timeout'
            os.makedirs(D+'/scr',exist_ok=True)
            sig=''
            for l in open(w,errors='replace'):
                if l.startswith('v '):
                    v=json.loads(l[2:]); sig=v['viol']['sig']+' | '+v['viol'].get('msg','')[:80] if v.get('viol') else str(v.get('viol') or v.get('harness'))[:200]
            if sig: return 'caught',pr+' '+sig[:150]
            if rc!=0: return 'caught',pr+' crash %s'%rc
        return 'SURVIVED',''
    finally: open(p,'wb').write(src)
def work(k):
    D=top+'/w%d'%k; os.makedirs(D+'/scr'); shutil.copytree(top+'/src',D+'/repo',symlinks=True)
    open(D+'/repo/zz_mut.go','w').write('package gotables\n\nvar gotablesMutNo = false\nvar gotablesMutYes = true\n')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: r,why=one(m,D)
        except Exception as e: r,why='error',repr(e)
        with lock:
            stats[r]=stats.get(r,0)+1
            m.update(result=r,why=why); fo.write(json.dumps(m)+'\n'); fo.flush()
            if sum(stats.values())%50==0: print(stats,q.qsize(),flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
for t in ts: t.start()
for t in ts: t.join()
print(stats); shutil.rmtree(top)
