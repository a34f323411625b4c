#!/usr/bin/env python3
"""mkseed.py batch.py [id...] : makes, confirms and stores planted bugs.
A bug is kept if it applies, builds, passes the stable tests, and its demonstration passes without and fails with it."""
import sys,os,json,subprocess,shutil,importlib.util,re,concurrent.futures as cf,queue
HERE=os.path.dirname(os.path.abspath(__file__)); SEED='/verif/seeded'
NW=int(os.environ.get('NW','4'))
def sh(c,cwd,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    return subprocess.run(c,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=t)
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
want=sys.argv[2:]
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
pool=queue.Queue()
def mk(i):
    d=f'/tmp/seedwt/{i}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs('/tmp/seedwt',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    return d
for i in range(NW): pool.put(mk(i))
TESTENV=dict(RUSTUP_TOOLCHAIN='1.82.0',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never')
def tests(d):
    os.makedirs(d+'/target/vp',exist_ok=True)
    e=dict(TESTENV,CARGO_TARGET_DIR=d+'/target')
    for n,f in(('1-default',''),('2-all','--all-features')):
        r=sh(f'cargo test --workspace {f} --no-fail-fast --offline -- --test-threads 8 > {d}/target/vp/{n}.log 2>&1',d,e)
    r=sh(f'python3 /opt/vp/results.py {d}/target/vp/out.json "cargo:{d}/target/vp/*.log"',d)
    p=set(json.load(open(d+'/target/vp/out.json'))['passed'])
    return sorted(stable-p)
def base_lines(d,f):
    o=sh(f'git blame -s --line-porcelain {f} 2>/dev/null | grep -E "^[0-9a-f]{{40}} "',d).stdout
    return [l.split()[0] for l in o.splitlines()]
def one(s):
    d=pool.get()
    try:
        sh('git checkout -q -- . && git clean -fdq -e target',d)
        for f,old,new in s['edits']:
            p=os.path.join(d,f); t=open(p).read()
            if t.count(old)!=1: return s['id'],f'EDIT matches {t.count(old)} times: {old[:60]!r}'
            open(p,'w').write(t.replace(old,new))
        diff=sh('git diff',d).stdout
        # lines removed must include a line of the original repository
        orig=0
        for f in {e[0] for e in s['edits']}:
            own=[x=='1292cc5' or x.startswith(BASE) for x in base_lines_head[f]]
            n=0
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',sh(f'git diff -U0 -- {f}',d).stdout,re.M):
                a=int(h[1]); c=int(h[2] or 1)
                for l in range(a,a+c):
                    if own[l-1]: n+=1
            orig+=n
        if orig==0: return s['id'],'changes no line of the original repository'
        miss=tests(d)
        if miss: return s['id'],f'TESTS fail: {miss[:4]}'
        out=os.path.join(SEED,s['id']); os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        only=[x[5:] for x in s.get('features',[]) if x.startswith('only:')]
        open(out+'/main.rs','w').write(('' if only else 'mod dm;\nuse dm::*;\n')+s['demo'].lstrip('\n'))
        if not only: shutil.copy(HERE+'/dm.rs',out)
        shutil.copy('/verif/harness/Cargo.lock',out+'/Cargo.lock.txt')
        if 'gssapi' in s.get('features',[]): shutil.copy('/verif/harness/src/gss.rs',out)
        t=open(HERE+'/demo.sh').read().replace('@FEAT@',''.join(f', "{x}"' for x in s.get('features',[])))
        if only: t=re.sub(r'features = \[.*\] \}','features = ['+', '.join(f'"{x}"' for x in only[0].split(','))+'] }',t,1)
        open(out+'/demo.sh','w').write(t); os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
        r1=sh(f'{out}/demo.sh',d,t=400)
        sh('git checkout -q -- .',d)
        r0=sh(f'{out}/demo.sh',d,t=400)
        if r0.returncode!=0 or r1.returncode==0 or 'could not compile `demo`' in r1.stdout or not only and 'could not compile' in r1.stdout:
            bad=f'DEMO clean={r0.returncode} bug={r1.returncode}\n--clean\n{r0.stdout[-1500:]}\n--bug\n{r1.stdout[-1500:]}'
            shutil.rmtree(out); return s['id'],bad
        return s['id'],'OK '+r1.stdout.strip().replace('\n',' | ')[-160:]
    finally:
        pool.put(d)
BASE=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd='/repo',capture_output=True,text=True).stdout.strip()
todo=[s for s in b.BUGS if not want or s['id'] in want]
base_lines_head={f:base_lines('/repo',f) for s in todo for f in {e[0] for e in s['edits']}}
with cf.ThreadPoolExecutor(NW) as ex:
    for i,m in ex.map(one,todo): print(i,m[:int(os.environ.get('MSG','300'))],flush=True)
shutil.rmtree('/tmp/seedwt')
