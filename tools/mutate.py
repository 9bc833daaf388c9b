#!/usr/bin/env python3
# mutate.py OUTDIR WORKERS [MAX] : single-token changes of the non-test lines of /repo/src that compile and pass the
# tests, and what notices them: the proof (function, obligation) and the replay harness (property).
# Development aid; no check runs it.
import json,os,re,random,subprocess,sys,shutil,threading,queue,time
OUT=sys.argv[1]; NW=int(sys.argv[2]); MAX=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
ONLY=sys.argv[4] if len(sys.argv)>4 else ''
os.makedirs(OUT,exist_ok=True)
V='/verif'
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' \+ ',' - '),(r' - ',' + '),
 (r' \* ',' + '),(r' / ',' * '),(r' % ',' / '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','1'),(r'\b2\b','3'),
 (r'\.rev\(\)',''),(r' \+= ',' = '),(r' \+= ',' -= '),(r' -= ',' += '),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.max\(','.min('),(r'\.min\(','.max('),
 (r'\bleft\b','right'),(r'\bright\b','left'),(r'\bother\b','self'),(r'\.start\b','.end'),(r'\.end\b','.start'),(r'\.clone\(\)','.deep_clone()'),
 (r'T::one\(\)','T::zero()'),(r'T::zero\(\)','T::one()'),(r'\.any\(','.all('),(r'\.all\(','.any('),(r'Some\((\w+)\)','None'),(r'\.\.=','..'),(r'len\(\) - 1','len() - 2'),(r'!(\w)',r'\1'),(r'\bi\b','j'),(r'\bj\b','k'),(r'\bk\b','j')]
def live_lines(path):
    t=open(path).read().split('\n'); live=[]; i=0; depth=0; skip=None
    d=0
    for n,l in enumerate(t):
        s=l.strip()
        if skip is None and (s.startswith('#[test]') or s.startswith('#[cfg(test)]')): skip=('wait',d)
        o=l.count('{')-l.count('}')
        if skip is None:
            if s and 'fn ' not in s and s not in (');','};','));') and 'dyn ' not in s and not re.match(r'^[A-Z]\w*: ',s) and not s.startswith('//') and not s.startswith('#') and not s.startswith('use ') and not s.startswith('pub use'): live.append(n)
        d+=o
        if skip is not None:
            if skip[0]=='wait' and '{' in l: skip=('in',skip[1])
            if skip[0]=='in' and d<=skip[1]: skip=None
    return t,live
muts=[]
for root,_,fs in os.walk('/repo/src'):
    for f in sorted(fs):
        p=os.path.join(root,f); rel=os.path.relpath(p,'/repo/src')
        if ONLY and not re.search(ONLY,rel): continue
        t,live=live_lines(p)
        for n in live:
            code=t[n].split('//')[0]
            for a,b in OPS:
                for m in re.finditer(a,code):
                    new=code[:m.start()]+m.expand(b)+code[m.end():]
                    if new!=code: muts.append((rel,n,t[n],new))
            if code.rstrip().endswith(';') and not code.strip().startswith('let ') and not code.strip().startswith('use') and not code.strip().startswith('type'):
                muts.append((rel,n,t[n],''))
seen=set(); u=[]
for m in muts:
    k=(m[0],m[1],m[3])
    if k not in seen: seen.add(k); u.append(m)
random.Random(6).shuffle(u); muts=u[:MAX]
print(len(u),'mutants, trying',len(muts),flush=True)
q=queue.Queue()
for x in enumerate(muts): q.put(x)
lock=threading.Lock()
res=open(OUT+'/results.jsonl','a')
done=set()
if os.path.exists(OUT+'/results.jsonl'):
    for l in open(OUT+'/results.jsonl'):
        try: d=json.loads(l); done.add((d['file'],d['line'],d['new']))
        except Exception: pass
def sh(c,t=300,**k):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,**k)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout='TIMEOUT'
        return R
def worker(w):
    W=f'{OUT}/w{w}'; shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    sh(f'cp -a /repo {W}/repo; rm -rf {W}/repo/target; cp -a {V}/harness {W}/harness; rm -rf {W}/harness/target')
    c=open(f'{W}/harness/Cargo.toml').read().replace('/repo',f'{W}/repo'); open(f'{W}/harness/Cargo.toml','w').write(c)
    env=dict(os.environ,CARGO_TARGET_DIR=f'{W}/target',CARGO_BUILD_JOBS='2')
    while True:
        try: i,(f,n,old,new)=q.get_nowait()
        except queue.Empty: break
        if (f,n+1,new) in done: continue
        p=f'{W}/repo/src/{f}'; orig=open(p).read(); L=orig.split('\n'); L[n]=new; open(p,'w').write('\n'.join(L))
        r=dict(id=i,file=f,line=n+1,old=old.strip(),new=new)
        try:
            b=sh('cargo build --offline -q 2>&1',cwd=f'{W}/repo',env=env)
            if b.returncode: r['state']='nobuild'
            else:
                t=sh('timeout -k 5 100 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1',cwd=f'{W}/repo',env=env)
                bad=[x for x in t.stdout.split('\n') if re.match(r'test .* \.\.\. FAILED',x)]
                okn=len(re.findall(r'^test .* \.\.\. ok$',t.stdout,re.M))
                if any(x not in BASEBAD for x in bad) or okn<BASEOK: r['state']='killed'
                else:
                    r['state']='survives'
                    x=sh(f'/tmp/vxt/release/vx-extract --src {W}/repo/src --contracts {V}/contracts --snapshot {V}/contracts/base.snapshot --out {W}/gen.rs --report {W}/rep.json')
                    if x.returncode: r['proof']=['extract failed']
                    else:
                        d=json.load(open(f'{W}/rep.json'))
                        ext=[g['key'] for g in d['functions'] if not g['contract'] or g['unsupported']]
                        open(f'{W}/ext.txt','w').write(''.join(k+'\n' for k in ext))
                        sh(f'/tmp/vxt/release/vx-extract --src {W}/repo/src --contracts {V}/contracts --snapshot {V}/contracts/base.snapshot --out {W}/gen.rs --report {W}/rep.json --external {W}/ext.txt')
                        d=json.load(open(f'{W}/rep.json'))
                        y=sh(f'verus {W}/gen.rs --triggers-mode silent --rlimit 60 --num-threads 2 2>&1',t=400)
                        fl=[]
                        for e in re.finditer(r'^error: (.*)\n(?:.*\n){0,1}? *--> .*gen\.rs:(\d+)',y.stdout,re.M):
                            for g in d['functions']:
                                if g['l0']<=int(e.group(2))<g['l1']: break
                            else: g=None
                            # primary span may be in another function: take any line number mentioned
                            fl.append((e.group(1)[:60],g['key'] if g else '?',g['props'] if g else [],(g['known'] and g['skeleton_same']) if g else None))
                        r['proof']=fl; r['verus']=(re.findall(r'results:: .*',y.stdout) or [y.stdout[-200:]])[0]
                        r['ext']=[k for k in ext if k not in base]
                    h=sh('cargo build --offline -q 2>&1',cwd=f'{W}/harness',env=env)
                    hits=[]
                    if h.returncode: hits=['harness build failed']
                    else:
                        ps=[]
                        for c0 in range(1,25,4):
                            pr=[(f'C{c:02d}',subprocess.Popen(['timeout','-k','5','100',f'{W}/target/debug/vx-harness',f'C{c:02d}','1','4'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)) for c in range(c0,c0+4)]
                            for c,pp in pr:
                                o,_=pp.communicate()
                                js=[l for l in o.split('\n') if l.startswith('{')]
                                if not js: hits.append(c+'(died)')
                                elif json.loads(js[-1]).get('fail') is not None: hits.append(c)
                    r['harness']=hits
        finally: open(p,'w').write(orig)
        with lock: res.write(json.dumps(r)+'\n'); res.flush()
base=set(l.rstrip('\n') for l in open(V+'/contracts/base.nocontract'))
b0=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1',600,cwd='/repo',env=dict(os.environ,CARGO_TARGET_DIR=OUT+'/chk'))
BASEBAD=set(x for x in b0.stdout.split('\n') if re.match(r'test .* \.\.\. FAILED',x)); BASEOK=len(re.findall(r'^test .* \.\.\. ok$',b0.stdout,re.M))
print('baseline',BASEOK,BASEBAD,flush=True)
ts=[threading.Thread(target=worker,args=(w,)) for w in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
