#!/usr/bin/env python3
"""matrix.py log...: puts the newest result of each planted bug from catch.py logs into DESIGN.md (results are kept in tools/seed/results.txt)."""
import sys,os,re
H='/verif/tools/seed/results.txt'; R={}
for f in [H]+sys.argv[1:]:
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'(c\d\d-\S+)\s+(C\d\d)\s+(?:\d+s )?\s*(caught|MISSED|TIMEOUT|RC\S+)',l)
            if m and os.path.isdir('/verif/seeded/'+m[1]): R[m[1]]=(m[2],m[3])
open(H,'w').write(''.join(f'{k} {a} {b}\n' for k,(a,b) in sorted(R.items())))
by={}
for k,(p,r) in sorted(R.items()): by.setdefault(p,[]).append(k[4:] if r=='caught' else f'**{k[4:]}: {r}**')
t='| check | planted bugs it catches (misses in bold) |\n|---|---|\n'+''.join(f'| {p} | {", ".join(v)} |\n' for p,v in sorted(by.items()))
no=[d for d in sorted(os.listdir('/verif/seeded')) if d not in R]
if no: t+='\nNot run yet: '+', '.join(no)+'\n'
s=open('/verif/DESIGN.md').read()
s=re.sub(r'<!-- matrix -->.*?<!-- /matrix -->',lambda _:'<!-- matrix -->\n'+t+'<!-- /matrix -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
