#!/usr/bin/env python3
"""mutate.py MUTS.jsonl OUT.jsonl [THREADS] [SCALE]: for each change listed by mutate, does it
compile, do the repository's tests pass with it, and do the checks see it? Works with build
overlays; /repo is not touched. Only for development: no check uses it."""
import json,sys,os,subprocess,tempfile,shutil,threading,queue
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]
N=int(sys.argv[3]) if len(sys.argv)>3 else 8
SCALE=sys.argv[4] if len(sys.argv)>4 else '0.03'
REPO='/repo'
done=set()
if os.path.exists(out):
    for l in open(out):
        r=json.loads(l); done.add((r['file'],r['start'],r['end'],r['text']))
env=dict(os.environ,HOME='/root',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GO111MODULE='on',GOWORK='off',GOTOOLCHAIN='local',GOPROXY='off',GOCACHE='/tmp/mutcache')
henv=dict(env,GONOSUMDB='*',GOENV='off',CGO_ENABLED='0')
base=json.load(open('/opt/vp/BASELINE.json'))
vp=json.load(open('/opt/vp/mod/overlay.json'))['Replace']
hv=json.load(open('/verif/harness/overlay.json'))['Replace']
rel=json.load(open('/verif/tools/mutate/relevance.json'))
ALL=['C%02d'%i for i in range(1,30)]
lock=threading.Lock()
def sh(cmd,env,cwd,timeout):
    p=subprocess.Popen(cmd,env=env,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout)
        return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait()
        return -9,'timeout'
stable=base[[k for k in base if isinstance(base[k],list)][0]]
def one(m,d):
    src=open(f"{REPO}/{m['file']}",'rb').read()
    f=f"{d}/mut.go"
    open(f,'wb').write(src[:m['start']]+m['text'].encode()+src[m['end']:])
    tgt=f"{REPO}/{m['file']}"
    json.dump({'Replace':dict(vp,**{tgt:f})},open(f'{d}/o1.json','w'))
    json.dump({'Replace':dict(hv,**{tgt:f})},open(f'{d}/o2.json','w'))
    e1=dict(env,GOFLAGS=f'-overlay={d}/o1.json -modfile=/opt/vp/mod/go.mod -mod=readonly')
    pkg='./'+os.path.dirname(m['file'])
    rc,o=sh(['go','build',pkg],e1,REPO,60)
    if rc: return 'nocompile',''
    if not m.get('skiptests'):
        if os.path.dirname(m['file']):
            rc,o=sh(['go','test','-vet=off','-count=1','-timeout','20s',pkg],e1,REPO,60)
            if rc: return 'tests',''
        rc,o=sh(['go','test','-json','-vet=off','-count=1','-timeout','20s','./...'],e1,REPO,120)
        passed=set()
        for l in o.splitlines():
            try: j=json.loads(l)
            except Exception: continue
            if j.get('Action')=='pass' and 'Test' in j: passed.add(j['Package']+'/'+j['Test'])
        if any(t not in passed for t in stable): return 'tests',''
    e2=dict(henv,GOFLAGS=f'-mod=mod -overlay={d}/o2.json')
    rc,o=sh(['go','build','-o',f'{d}/pbt','.'],e2,'/verif/harness',120)
    if rc: return 'nobuild',o[:300]
    first=rel.get(m['file'],[])
    for p in first+[x for x in ALL if x in ('C01','C23','C28') and x not in first]:
        rc,o=sh([f'{d}/pbt','run','-property',p,'-scale',SCALE],dict(henv,VERIF_DIR=d,TMPDIR=d),d,400)
        if rc==1 and 'VIOLATION property='+p in o: return 'caught',p
        if rc!=0: return 'odd',f'{p} rc={rc} {o[-300:]}'
    return 'SURVIVED',''
q=queue.Queue()
for m in muts:
    if (m['file'],m['start'],m['end'],m['text']) not in done and '"%s" -> "%s"'%(m['text'],m['text'])!=m['what']: q.put(m)
def work():
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        d=tempfile.mkdtemp(prefix='mut')
        try: r=one(m,d)
        finally: shutil.rmtree(d,ignore_errors=True)
        with lock:
            open(out,'a').write(json.dumps(dict(m,result=r[0],info=r[1]))+'\n')
ts=[threading.Thread(target=work) for _ in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
