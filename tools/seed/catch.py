#!/usr/bin/env python3
"""catch.py [id...] : runs the check of each planted bug's property against it, in scratch copies under /tmp/sx. PROP=Cxx runs that check instead."""
import sys,os,json,subprocess,shutil,queue,time,concurrent.futures as cf
NW=int(os.environ.get('NW','3')); S='/verif/seeded'
def mk(i):
    d=f'/tmp/sx/{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/verif')
    subprocess.run(f'cp -a /repo {d}/repo; rm -rf {d}/repo/target; cd /verif; cp -a check.sh setup.sh harness feat tools known_findings.txt properties.jsonl MANIFEST.json {d}/verif/',shell=True,check=True)
    if not os.environ.get('NOTARGET'): subprocess.run(f'mkdir -p {d}/verif/target; cp -a /verif/target/debug /verif/target/gss /verif/target/thread /verif/target/feat {"/verif/target/address /verif/target/memory /verif/target/miri" if os.environ.get("SAN") else ""} {d}/verif/target/ 2>/dev/null',shell=True)
    return d
pool=queue.Queue()
for i in range(NW): pool.put(mk(i))
ids=sys.argv[1:] or sorted(os.listdir(S))
def one(i):
    m=json.load(open(f'{S}/{i}/meta.json')); p=os.environ.get('PROP') or m['property']
    d=pool.get()
    try:
        r=subprocess.run(f'git checkout -q -- . && git apply {S}/{i}/patch.diff',shell=True,cwd=d+'/repo',capture_output=True,text=True)
        if r.returncode: return i,p,'APPLY '+r.stderr[:200],0
        subprocess.run('find src -newer ../stamp -name "*.rs" -exec touch {} + 2>/dev/null; git diff --name-only | xargs touch',shell=True,cwd=d+'/repo')
        t=time.time()
        try: r=subprocess.run(f'./check.sh {p}',shell=True,cwd=d+'/verif',capture_output=True,text=True,errors='replace',timeout=900,env=dict(os.environ,VERIF_SEED=os.environ.get('VERIF_SEED','1'),VERIF_TIER=os.environ.get('VERIF_TIER','quick')))
        except subprocess.TimeoutExpired: return i,p,'TIMEOUT',900
        v=[l for l in (r.stdout+r.stderr).splitlines() if l.startswith('VIOLATION')]
        own=[l for l in v if f'property={p}' in l]
        s='caught' if r.returncode==1 and own else ('MISSED' if r.returncode==0 else f'RC{r.returncode} '+(r.stdout+r.stderr)[-300:].replace('\n',' | '))
        return i,p,s+(' '+own[0][:120] if own else ''),time.time()-t
    finally:
        subprocess.run('git diff --name-only > ../ch; git checkout -q -- .; xargs touch < ../ch',shell=True,cwd=d+'/repo')
        pool.put(d)
with cf.ThreadPoolExecutor(NW) as ex:
    for i,p,s,t in ex.map(one,ids): print(f'{i:28} {p} {t:5.0f}s {s}'[:300],flush=True)
shutil.rmtree('/tmp/sx')
