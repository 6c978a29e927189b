"""auto.py NMUT SEED 'P:c P:c' FILES...   env K parallel"""
import sys,subprocess,os,json,random,shutil,re
from concurrent.futures import ThreadPoolExecutor
import threading,queue
n,seed,props=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3].split()
files=sys.argv[4:]
K=int(os.environ.get('K','3'))
allm=[]
for f in files:
    o=subprocess.run(['/tmp/mm/auto/gen','/tmp/r2/'+f],capture_output=True,text=True).stdout
    for m in (json.loads(o) or []): allm.append((f,m))
random.Random(seed).shuffle(allm)
print(len(allm),'sites',flush=True)
allm=allm[:n]
slots=queue.Queue()
for i in range(K):
    d=f'/tmp/mm/auto/s{os.getpid()}_{i}'
    os.makedirs(d+'/r'); subprocess.run(f'rsync -a --exclude .git /tmp/r2/ {d}/r/',shell=True,check=True)
    slots.put(d)
lock=threading.Lock(); stat={'caught':0,'nobuild':0,'alive':0}
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GO111MODULE='on',CGO_ENABLED='0')
def one(x):
    f,m=x
    d=slots.get()
    try:
        src=open('/tmp/r2/'+f,'rb').read()
        new=src[:m['Start']]+m['New'].encode()+src[m['End']:]
        if new==src: return
        open(f'{d}/r/{f}','wb').write(new)
        p=subprocess.run(['go','build','./'+os.path.dirname(f)],cwd=d+'/r',env=env,capture_output=True,text=True)
        tag=f"{f}:{m['Line']} {m['What']}"
        if p.returncode:
            with lock: stat['nobuild']+=1
            return
        p=subprocess.run(['bash','/verif/.work/b2.sh',d+'/r',d+'/b'],capture_output=True,text=True)
        if p.returncode:
            with lock: stat['nobuild']+=1
            return
        res=[]
        for P in props:
            P,c=P.split(':'); c=int(c); done=0
            while done<c:
                k=min(300,c-done)
                try:
                    p=subprocess.run([d+'/b','-one',P,'-seed',str(900000+done),'-count',str(k)],env=dict(env,GOMAXPROCS='1',GODEBUG='asyncpreemptoff=1'),stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors='replace',timeout=600)
                    o=p.stdout
                except subprocess.TimeoutExpired: o='x\n1 runs, 1 bad (timeout)\n'
                l=(o.strip().split('\n') or [''])[-1]
                g=re.search(r'(\d+) runs, (\d+) bad',l)
                if not g or int(g[2]):
                    with lock: stat['caught']+=1
                    return
                done+=k
            res.append(f'{P} 0/{c}')
        with lock:
            stat['alive']+=1
            print('ALIVE',tag,'|',src[m['Start']:m['End']].decode()[:100].replace('\n',' '),'=>',m['New'][:80].replace('\n',' '),'|',' '.join(res),flush=True)
    finally:
        shutil.copy('/tmp/r2/'+f,f'{d}/r/{f}')
        slots.put(d)
with ThreadPoolExecutor(K) as ex: list(ex.map(one,allm))
print(stat)
while not slots.empty(): shutil.rmtree(slots.get())
