#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and checks it against the schema."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
T={
"C01":"explicit-state exploration of all bounded write histories on the real code",
"C02":"exploration of all bounded histories plus reachability closure of the writer protocol states, each compared with a reopen",
"C03":"exhaustive enumeration of bounded segment sequences from an independent encoder, decoded by the real code",
"C04":"exhaustive enumeration of (file shape, start, length) on the real code",
"C05":"exhaustive enumeration of (file shape, request order, lengths, start) on the real code",
"C06":"exhaustive enumeration of the stored-type x read-type x layout x order matrix on the real code",
"C07":"explicit-state exploration of all bounded property write histories on the real code",
"C08":"exhaustive enumeration of object sets over a pool of adversarial names",
"C09":"exhaustive enumeration of all names and path strings up to a length bound",
"C10":"exhaustive fault injection into file bytes (all single-byte and header-field mutations)",
"C11":"exhaustive crash-point enumeration (every byte prefix of every bounded history)",
"C12":"exhaustive fault-point enumeration (every stream operation, and pairs) on the real code",
"C13":"exhaustive enumeration of short and interrupted transfers at every stream operation, and pairs",
"C14":"explicit-state exploration of histories with refused calls at every position",
"C15":"exhaustive device-fault enumeration over all bounded write histories",
"C16":"exploration of all bounded write histories, decoded by an independent strict decoder",
"C17":"exploration of all bounded histories with a recording device",
"C18":"exploration of all bounded histories with a crash at every sync",
"C19":"exhaustive enumeration of codec inputs (all 8/16-bit values, byte-pair patterns, all truncations)",
"C20":"exhaustive enumeration of the conversion matrix over boundary values, and of dates and timestamps at the ends and steps of their ranges",
"C21":"exploration of all bounded call sequences compared with a fresh open",
"C22":"exhaustive enumeration of requests with an access-recording device",
"C23":"exhaustive enumeration of sparse large-file shapes around 2^31, 2^32 and 2^40",
"C24":"exploration of all bounded create/load/write/close sequences on a real scratch directory",
"C25":"exhaustive enumeration of segment arrangements and sizes on a recording stream and allocator",
"C26":"exhaustive enumeration of uninterpretable content (indexes, type codes, tags, text, contradictions) at every place of a file",
"C27":"exhaustive enumeration of refused calls and failing stream operations, errors compared with their cause",
"C28":"explicit-state exploration of all bounded write histories, file growth compared with the format's need",
"C29":"exploration of all bounded interleavings of calls on 2 and 3 handles of one file (stream, shared position, real file)",
"C30":"exhaustive enumeration of arrangements, sizes and requests on a measuring allocator",
"C31":"exploration of all bounded write sequences with every combination of interludes, bytes and listing orders compared",
 "C32":"fault enumeration: an error or panic of the application's code at each point of bounded histories and reads, with all reactions",
 "C33":"schedule enumeration: a controlled scheduler runs real threads through every interleaving of their stream operations with a bounded number of preemptions",
}
note="Exhaustive within the bounds recorded in the evidence (scenarios[].bounds): every execution of the real library code inside them is run and judged against an independent reference written from the NI format document. Trusts rustc, the harness's device model and reference, and that behaviour outside the bounds resembles that inside."
m={"version":1,"setup_cmd":"./check.sh build",
 "checks":[{"property":p["id"],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":T[p["id"]],"level":"model_checking","level_note":note} for p in props],
 "not_applicable":[],
 "notes":"No hooks: the harness in /verif/mc uses only the public API of the crate in /repo, over an in-memory device it controls. /repo carries only fix: commits (see known_findings.jsonl)."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p,s)
    print("valid")
except ImportError: print("no jsonschema")
