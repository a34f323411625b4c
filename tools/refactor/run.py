#!/usr/bin/env python3
"""run.py [group…] : applies each behaviour-preserving group of refs.py to scratch copies of /repo (under /tmp/rf), runs the existing tests and then
all checks (or CHECKS="C01 C02"); everything has to be quiet. TESTS=1: only the existing tests."""
import sys,os,subprocess,shutil,time,concurrent.futures as cf
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from refs import R
groups=sys.argv[1:] or list(R)
checks=os.environ.get('CHECKS','').split() or [f'C{i:02}' for i in range(1,23)]
def one(g):
    out=[]
    d=f'/tmp/rf/{g}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/verif')
    subprocess.run(f'cp -a /repo {d}/repo; rm -rf {d}/repo/target; cd /verif; cp -a check.sh setup.sh harness feat tools known_findings.txt properties.jsonl MANIFEST.json {d}/verif/',shell=True,check=True)
    for f,a,b in R[g]:
        p=f'{d}/repo/{f}'; s=open(p).read()
        if s.count(a)!=1: out.append(f'{g}: EDIT {f} matches {s.count(a)}: {a[:60]!r}'); continue
        open(p,'w').write(s.replace(a,b))
    e=dict(os.environ,RUSTUP_TOOLCHAIN='1.82.0',CARGO_NET_OFFLINE='true')
    if out: return out
    r=subprocess.run(f'cargo build --offline --features gssapi --target-dir /tmp/rf/{g}/t 2>&1 | grep -A12 ^error | head -60; cargo test --offline --target-dir /tmp/rf/{g}/t 2>&1 | grep -E "^error|test result|FAILED|failed" | head',shell=True,cwd=d+'/repo',env=e,capture_output=True,text=True)
    out.append(f'{g}: tests {r.stdout}')
    shutil.rmtree(d+'/t',ignore_errors=True)
    if os.environ.get('TESTS'): shutil.rmtree(d); return out
    subprocess.run(f'mkdir -p {d}/verif/target; cp -a /verif/target/debug /verif/target/gss /verif/target/thread /verif/target/feat /verif/target/address /verif/target/memory /verif/target/miri {d}/verif/target/ 2>/dev/null; find {d}/repo/src -name "*.rs" -exec touch {{}} +',shell=True)
    for c in checks:
        t=time.time()
        try: r=subprocess.run(['./check.sh',c],cwd=d+'/verif',capture_output=True,text=True,errors='replace',timeout=1500,env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'))
        except subprocess.TimeoutExpired: out.append(f'{g} {c} TIMEOUT'); continue
        v=[l for l in (r.stdout+r.stderr).splitlines() if l.startswith('VIOLATION')]
        line=f'{g} {c} {time.time()-t:.0f}s rc={r.returncode} {"quiet" if not r.returncode and not v else "ALARM"}'
        if r.returncode or v:
            line+=' '+' | '.join(v)[:300]
            for x in v:
                f=x.split('replay=')[-1]
                try: line+='\n   '+open(f).read()[:600]
                except OSError: pass
            if not v: line+=(r.stdout+r.stderr)[-400:]
        out.append(line); print(line,flush=True)
    shutil.rmtree(d)
    return out
with cf.ThreadPoolExecutor(int(os.environ.get('NW','2'))) as ex:
    for o in ex.map(one,groups):
        for l in o:
            if 'tests' in l or 'EDIT' in l: print(l,flush=True)
