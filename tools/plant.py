#!/usr/bin/env python3
# plant.py SPEC.json : builds a planted bug in a scratch copy, confirms it, stores it under /verif/seeded
# SPEC: {"id","property","needs","what_it_breaks","edits":[[file,old,new],...],"main": rust source of the demonstration}
import json,os,subprocess,sys,shutil,hashlib
spec=json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else None
V='/verif'; W='/tmp/plant'
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def one(s):
    shutil.rmtree(W,ignore_errors=True)
    run(f'git -C /repo worktree prune; git clone -q /repo {W}; cp /repo/Cargo.lock {W}/ 2>/dev/null')
    for f,a,b in s['edits']:
        p=f'{W}/src/{f}'; t=open(p).read()
        assert t.count(a)==1,(s['id'],f,a,t.count(a))
        open(p,'w').write(t.replace(a,b))
    d=run(f'git -C {W} diff').stdout
    D=f"{V}/seeded/{s['id']}"; os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(d)
    open(D+'/main.rs','w').write(s['main'])
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['what_it_breaks']},open(D+'/meta.json','w'),indent=1)
    open(D+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; builds a small program against it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
S=$(mktemp -d)
trap 'rm -rf -- "$S"' EXIT
mkdir -p "$S/src"
cp "$H/main.rs" "$S/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_light = { path = "$R" }
rayon = "1.7.0"
T
cd "$S" && timeout 250 env CARGO_TARGET_DIR="$S/target" cargo run --offline -q
''')
    run(f'chmod +x {D}/demo.sh')
    r0=run(f'bash {D}/demo.sh',cwd='/repo')
    r1=run(f'bash {D}/demo.sh',cwd=W)
    t=run('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep "^test .*FAILED\\|^test .*failed\\|error" ',cwd=W,env=dict(os.environ,CARGO_TARGET_DIR='/tmp/plant-target'))
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if False else None
    print(s['id'],'clean demo',r0.returncode,'bug demo',r1.returncode,'tests:',[l for l in t.stdout.split(chr(10)) if l.strip() and not l.startswith('test result: ok')] or 'ok')
    if r0.returncode!=0: print(r0.stdout[-800:])
    if r1.returncode==0: print('NOT SHOWN',r1.stdout[-300:])
    shutil.rmtree(W,ignore_errors=True)
for s in (spec if isinstance(spec,list) else [spec]): one(s)
