#!/usr/bin/env python3
"""mutate.py OUT [file-regex] : small syntactic changes all over /repo/src, each judged by all checks at a small scale (in copies under /tmp/mu).
Survivors (nothing reported) are then tried on the repository's own tests; what is left is for a human to read.
NW workers, MAX mutants per file, SEED."""
import os,re,sys,subprocess,random,json,queue,shutil,time,concurrent.futures as cf
OUT=sys.argv[1]; RE=re.compile(sys.argv[2] if len(sys.argv)>2 else '.')
NW=int(os.environ.get('NW','3')); MAX=int(os.environ.get('MAX','1000')); rnd=random.Random(int(os.environ.get('SEED','1')))
SCALE=os.environ.get('SCALE','0.02')
CH='C20 C03 C08 C07 C21 C15 C13 C12 C10 C11 C14 C09 C23 C01 C02 C04 C18 C19 C06 C05 C16'.split()
REPO='/repo'
def code_lines(src):
    """indices of the lines that are program text, not tests, comments or attributes"""
    out=[]; ls=src.split('\n'); skip=None; depth=0; i=0
    intest=False
    for i,l in enumerate(ls):
        t=l.strip()
        if intest:
            depth+=l.count('{')-l.count('}')
            if depth<=0 and '{' in ''.join(ls[start:i+1]): intest=False
            continue
        if t.startswith('#[cfg(test)]') or t.startswith('#[cfg(all(test'):
            intest=True; depth=0; start=i; continue
        if not t or t.startswith('//') or t.startswith('#[') or t.startswith('#!') or t.startswith('use ') or t.startswith('pub use') : continue
        out.append(i)
    return out
OPS=[
 (r'==','!='),(r'!=','=='),(r'(?<![-=<>])<=(?!=)','<'),(r'(?<![-=<>])>=(?!=)','>'),(r' < ',' <= '),(r' > ',' >= '),
 (r'&&','||'),(r'\|\|(?! *\{)','&&'),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_ok\(\)','.is_err()'),(r'\.is_err\(\)','.is_ok()'),
 (r'if !','if '),(r'(?<![\w.)\]])!(?=[a-z(*])',''),(r'\bif (?!let|!)(?=[a-z(*])','if !'),
 (r'\bMessageSent::Yes\b','MessageSent::No'),(r'\bMessageSent::No\b','MessageSent::Yes'),(r'\bState::Running\b','State::Finished(crate::mechanism::MessageSent::Yes)'),
 (r' \+ ',' - '),(r' - ',' + '),(r'\+= ','-= '),(r'-= ','+= '),(r' \* ',' + '),(r' \^ ',' & '),(r' & ',' | '),
 (r'\bbreak\b','continue'),(r'\bcontinue\b','break'),(r'\.next\(\)','.next_back()'),(r'\.rev\(\)',''),(r'\.any\(','.all('),(r'\.all\(','.any('),
 (r'\.min\(','.max('),(r'\.max\(','.min('),(r'\bFirst\b','Second'),(r'\bSecond\b','First'),(r'\.saturating_sub\(','.wrapping_sub('),
 (r'\bSome\((\w+)\) =>','Some(\\1) if false =>'),(r'\bOk\((\w+)\) =>','Ok(\\1) if false =>'),
 (r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b([2-9]|[1-9]\d+)\b',lambda m:str(int(m.group(0))+1)),(r'\b([2-9]|[1-9]\d+)\b',lambda m:str(int(m.group(0))-1)),
 (r"b'(.)'",lambda m:"b'"+chr(ord(m.group(1))^1)+"'" if m.group(1)!='\\' else m.group(0)),
 (r'b"([^"\\]+)"',lambda m:'b"'+m.group(1)[:-1]+chr(ord(m.group(1)[-1])^1).replace('"','x').replace('\\','x')+'"'),
 (r'(?<![b\w])"([^"\\{} ]+)"',lambda m:'"'+m.group(1)[:-1]+chr(ord(m.group(1)[-1])^1).replace('"','x').replace('\\','x')+'"'),
 (r'\bAuthId\b(?!\()','AuthzId'),(r'\bAuthzId\b(?!\()','AuthId'),(r'\.take\(\)','.as_ref().cloned()'),(r'\.\.=','..'),(r'\.clear\(\)','.len()'),
 (r'Side::Client','Side::Server'),(r'Side::Server','Side::Client'),
]
def muts(f):
    src=open(f'{REPO}/src/{f}').read(); ls=src.split('\n'); res=[]
    for i in code_lines(src):
        l=ls[i]; t=l.strip()
        code=l.split(' // ')[0]
        for a,b in OPS:
            for m in re.finditer(a,code):
                new=code[:m.start()]+m.expand(b) if isinstance(b,str) else code[:m.start()]+b(m)
                new+=code[m.end():]
                if new!=code: res.append((f,i,l,new))
        if re.match(r'^(self\.|[a-z_.]+\().*;$',t) or re.match(r'^[a-z_.]+ [-+|]?= .*;$',t) or re.match(r'^[\w.]+\(.*\)\?;$',t): res.append((f,i,l,'')) # statement dropped
        if re.match(r'^return .*;$',t): res.append((f,i,l,'')) 
        if t.endswith(')?;') and not t.startswith('let') and t.startswith('.'): pass
        if t.endswith('?;') and not t.startswith('let ') : res.append((f,i,l,re.sub(r'\?;$','.ok();',l)))
        if re.match(r'^if .*\{$',t) and 'let' not in t: res.append((f,i,l,re.sub(r'if .*\{$','if false {',l))); res.append((f,i,l,re.sub(r'if .*\{$','if true {',l)))
    return res
def mk(i):
    d=f'/tmp/mu/{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/verif/target')
    subprocess.run(f'cp -a /repo {d}/repo; rm -rf {d}/repo/target; cd /verif; cp -a harness tools known_findings.txt {d}/verif/',shell=True,check=True)
    return d
def one(m):
    f,i,old,new=m; d=pool.get()
    p=f'{d}/repo/src/{f}'; src=open(p).read()
    try:
        ls=src.split('\n'); assert ls[i]==old; ls[i]=new; open(p,'w').write('\n'.join(ls))
        env=dict(os.environ,RUSTUP_TOOLCHAIN='1.82.0',CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=d+'/verif/target/gss',CARGO_BUILD_JOBS='3',CARGO_PROFILE_DEV_OPT_LEVEL='1',CARGO_PROFILE_DEV_DEBUG='0',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_INCREMENTAL='true')
        r=subprocess.run('cargo build --offline --features gssapi',shell=True,cwd=d+'/verif/harness',capture_output=True,text=True,env=env)
        if r.returncode: return m,'nocompile',''
        for c in CH:
            try: r=subprocess.run([d+'/verif/target/gss/debug/rv',c],cwd=d+'/verif',capture_output=True,text=True,errors='replace',timeout=300,env=dict(os.environ,RV_ROOT=d+'/verif',RV_WORKERS='3',RV_SCALE=SCALE,VERIF_SEED='1',VERIF_TIER='quick'))
            except subprocess.TimeoutExpired: return m,'timeout',c
            if r.returncode==1 or r.returncode<0: return m,'killed',c
            if r.returncode: return m,'rc%d'%r.returncode,c+' '+(r.stderr+r.stdout)[-300:].replace('\n',' | ')
        return m,'SURVIVED',''
    except Exception as e: return m,'exc',repr(e)
    finally:
        open(p,'w').write(src); pool.put(d)
pool=queue.Queue()
if __name__=='__main__':
    files=[os.path.relpath(os.path.join(a,x),REPO+'/src') for a,_,fs in os.walk(REPO+'/src') for x in fs if x.endswith('.rs')]
    files=[f for f in sorted(files) if RE.search(f) and not f.startswith('test') and f not in ('init.rs',)]
    ms=[]
    for f in files:
        x=muts(f); rnd.shuffle(x); ms+=x[:MAX]
    rnd.shuffle(ms)
    if os.environ.get('TOTAL'): ms=ms[:int(os.environ['TOTAL'])]
    print(len(ms),'mutants',flush=True)
    if os.environ.get('LIST'): [print(m) for m in ms]; sys.exit()
    for i in range(NW): pool.put(mk(i))
    with open(OUT,'a') as o, cf.ThreadPoolExecutor(NW) as ex:
        for m,s,x in ex.map(one,ms):
            o.write(json.dumps({'f':m[0],'l':m[1]+1,'old':m[2].strip(),'new':m[3].strip(),'r':s,'x':x})+'\n'); o.flush()
    shutil.rmtree('/tmp/mu')
