#!/usr/bin/env python3
"""development helper: writes known_findings.txt (fixed entries from /repo's fix commits, known ones from the list below)"""
import subprocess
F={ # commit subject -> (properties, what failed)
"fix: give ScramCachedPassword a constructor":("C03","a client callback could not satisfy ScramCachedPassword at all (non_exhaustive struct without constructor), so logging in with cached keys was impossible"),
"fix: build_context compiles on current Rust":("C17","transmute between Context and dyn Provider with different lifetimes is rejected by current compilers"),
"fix: SCRAM parsers do not panic on short attributes":("C06","SCRAM server/client panicked on attributes of fewer than two bytes, e.g. client-first 'n,,,'"),
"fix: SCRAM server unescapes user name and authorization identity":("C03 C07","server saw 'a=2Cb' for the user 'a,b'"),
"fix: SCRAM server rejects a proof of the wrong length":("C01","a shorter or longer proof than the hash length panicked or was accepted on a prefix"),
"fix: SCRAM proofs cover the messages as received":("C01 C03","proofs were computed over re-serialised instead of received messages (iteration count '01', salt encoding)"),
"fix: SCRAM client only accepts decimal iteration counts":("C02","iteration count '+1' was accepted"),
"fix: SCRAM -PLUS servers require channel binding":("C04","a -PLUS server accepted a client that sent 'n' or 'y'"),
"fix: only select SCRAM mechanisms that were offered":("C04 C09","a client started a SCRAM variant that the server had not offered"),
"fix: step64 writes the complete encoded message":("C10 C11","step64 output was not valid base64 for messages written in several parts"),
"fix: vectored writes report truncation and retry interrupted calls":("C10","a writer that stopped accepting bytes was reported as success; interrupted writes failed"),
"fix: later values for a satisfied request are ignored":("C12","a second satisfy after a swallowed early return ran closures and returned an error or replaced the value"),
"fix: SCRAM sessions stay usable after a step without input":("C15","after InputDataRequired the next SCRAM step panicked"),
"fix: SCRAM client rejects cached keys of the wrong length":("C06","cached keys of a wrong length panicked the client"),
"fix: OAUTHBEARER escapes the authorization identity":("C07 C08","authzid containing ',' or '=' was sent raw and read escaped"),
"fix: OAUTHBEARER server follows the message grammar":("C08","values with '=' rejected; missing trailing comma, extra gs2 parts, empty keys and a second auth accepted"),
"fix: OAUTHBEARER server separates the token from its scheme":("C07","server callbacks saw 'Bearer TOKEN' instead of the token"),
"fix: OAUTHBEARER client accepts escaped error messages":("C14","an error document with JSON escapes was an error for the client"),
"fix: OAuth clients reject values containing field separators":("C07","U+0001 in user, token, authzid or key/value pairs injected fields"),
"fix: EXTERNAL server rejects NUL characters":("C08","an authorization identity containing NUL was accepted"),
"fix: XOAUTH2 server refuses to send an empty error":("C14","an empty error string reached the client as success"),
}
import os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra=root+'/tools/fixes_extra.txt'
if os.path.exists(extra):
    for l in open(extra):
        s,p,w=l.rstrip('\n').split('|'); F[s]=(p,w)
out=["# fixed: defects of dequbed/rsasl repaired in /repo (suppress nothing)","# known: property=.. sig=.. text   defects recorded but not repaired"]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True)
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    ps,w=F[s]
    for p in ps.split(): out.append(f"fixed: property={p} {h} {w}")
k=root+'/tools/known.txt'
if os.path.exists(k): out+=open(k).read().splitlines()
open(root+'/known_findings.txt','w').write('\n'.join(out)+'\n')
