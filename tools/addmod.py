#!/usr/bin/env python3
"""register a property module in main.rs (development helper)"""
import sys
p='/verif/harness/src/main.rs'; s=open(p).read()
for m in sys.argv[1:]:
    if f"mod {m};" in s: continue
    s=s.replace("mod cb;",f"mod {m};\nmod cb;")
    if m.startswith('c') and m[1:].isdigit():
        s=s.replace("        _ => {\n            eprintln!(\"unknown",f"        \"{m.upper()}\" => {m}::run(&mut r),\n        _ => {{\n            eprintln!(\"unknown")
open(p,'w').write(s)
