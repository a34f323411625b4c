#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM="runtime monitoring: "
T={
'C01':("exploration",RM+"recorded server sessions judged by an independent RFC 5802 reference over honest, mutated, spliced and replayed client messages",
  "Accepts/rejects compared with an independent implementation on every explored message; trusts the sha1/sha2 crates and the reference implementation (self-tested against RFC vectors)."),
'C02':("exploration",RM+"recorded client sessions against a misbehaving reference server, judged by the reference verifier",
  "Every finished client session must have received exactly the reference verifier; sampled server misbehaviour."),
'C03':("exploration",RM+"byte-exact differential oracle against an independent RFC 5802/7677 implementation",
  "Wire messages, proofs and derived keys equal the reference on all explored credentials; SASLprep itself is outside rsasl."),
'C04':("exploration",RM+"decision-table oracle over all combinations of support, binding types, data and in-flight edits",
  "The finite configuration table is enumerated, data and edits are sampled."),
'C05':("exploration",RM+"global uniqueness and distribution monitors over the nonces and salts of concurrent sessions",
  "Statistical: observes absence of repeats and structure in the sampled sessions, cannot prove unpredictability."),
'C06':("exploration",RM+"hostile peers with panic, CPU and allocation monitors",
  "Mutational fuzzing; thresholds for allocation are proportional to the message and the application's data."),
'C07':("exploration",RM+"end-to-end equality oracle between supplied and observed fields",
  "Both sides are this library; equality on accepted exchanges, must-accept for representable values."),
'C08':("exploration",RM+"independent grammar parsers judge raw messages",
  "Inputs the grammar leaves open are not judged except for exactness when accepted."),
'C09':("exploration",RM+"reference model of mechanism selection over random registries, offers and preferences",
  "Preferences are strict total orders with rejection, as the API requires."),
'C10':("fault_enumeration",RM+"fault-injecting writers at every byte offset of every message of the generated exchanges",
  "All fault offsets are enumerated for each generated exchange; exchanges are sampled."),
'C11':("exploration",RM+"paired raw and base64 sessions compared step by step",
  "Mechanisms without randomness and a probe mechanism compare outputs exactly; SCRAM compared by structure."),
'C12':("exploration",RM+"generated callback programs judged by a model of the request contract",
  "Covers the request/context API through a custom mechanism plus property-removal and error injection on the real mechanisms."),
'C13':("exploration",RM+"trace monitor counting validation calls and results",
  "Exactly-once judged on the recorded event log of each exchange."),
'C14':("exploration",RM+"error-document equality oracle across OAuth exchanges",
  "Both OAuth mechanisms; documents generated, including unparseable ones."),
'C15':("exploration",RM+"paired sessions with and without inserted data-less steps",
  "Every data-requiring state of every mechanism, up to three insertions."),
'C16':("exploration",RM+"concurrent sessions on shared configurations, per-session oracles plus ThreadSanitizer",
  "Interleavings are those the scheduler and injected yields produced."),
'C17':("exploration","undefined-behaviour interpreter (Miri), AddressSanitizer+LeakSanitizer and MemorySanitizer on the monitored workloads, plus object and live-memory accounting",
  "Only executed paths are judged; Miri runs reduced workloads."),
'C18':("exploration",RM+"RFC 4752 negotiation and round-trip oracle, GSSAPI against a stand-in GSS library",
  "The stand-in replaces Kerberos: cryptography of GSS is not exercised."),
'C19':("exploration",RM+"taint search for secrets in all outputs, errors and debug renderings, and monitored callback requests",
  "Searches raw, hex and base64 renderings."),
'C20':("exploration",RM+"turn-order trace monitor over alternating drivers",
  "Honest exchanges of all mechanisms, both drivers (raw and base64)."),
'C21':("fault_enumeration",RM+"single-fault injection at every callback request, validation, write and input of an exchange, error compared with the injected fault",
  "All fault points of each generated exchange; exchanges, error kinds and hostile messages are sampled. Single faults only."),
'C22':("exploration",RM+"a probe program built and run under many cargo feature sets, its observations compared with the build that has every mechanism",
  "Fixed sets (each mechanism alone and left out, each API part) plus random ones; not all 2^15 combinations."),
'C23':("exploration",RM+"an independent RFC 5802 grammar judges raw SCRAM messages, with keyed proofs over whatever was sent",
  "What the grammar leaves open (malformed optional extensions, leading zeros, extensions of server-first messages) may be refused or accepted, but only with the same fields."),
}
props=[json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
claimed=[l for l in open(root+'/tools/claimed.txt').read().split()]
checks=[{"property":p,"quick_cmd":f"./check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p}","technique":T[p][1],"level":T[p][0],"level_note":T[p][2]} for p in props if p in claimed]
na=[{"property":p,"reason":"check not built yet"} for p in props if p not in claimed]
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: everything is observed through the public API."},open(root+'/MANIFEST.json','w'),indent=1)
