#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
D="stateless (DFS) exhaustive exploration of operation histories on the real code against a reference model"
B="explicit-state (BFS to closure or depth) model checking of the real code against a reference model"
G="exhaustive enumeration of a bounded input space on the real code against an independent ssz model"
F="exhaustive fault-point enumeration over bounded operation histories of the real code"
claims={
"C01":(B+"; "+D,"All write histories over all indices of depth <=2 (depth 5 quick, 7 thorough) and depth <=3 (depth 3/4), with subtree copies; every node of the tree is read back after every step and the root compared with a term model. Hash function replaced by a cheap 32-byte digest in the deep searches, Sha256 in a shallower one."),
"C17":("exhaustive enumeration of generalized indices (singles, pairs, triples) against bit-string routes","Complete for all indices below 2^16 (2^20 thorough), all pairs below 2^10 (2^12), and boundary indices at every depth up to 63; index arithmetic is bit-local, so larger indices are covered by the boundary patterns only."),
}
import os,sys
extra=os.path.join(os.path.dirname(__file__),'claims.json')
if os.path.exists(extra):
    for k,v in json.load(open(extra)).items(): claims[k]=(v[0].format(D=D,B=B,G=G,F=F),v[1])
checks=[dict(property=p,quick_cmd=f"./run.sh {p} quick",thorough_cmd=f"./run.sh {p} thorough",evidence_file=f"evidence/{p}.json",
  technique=claims[p][0],level="model_checking",level_note=claims[p][1]) for p in props if p in claims]
na=[dict(property=p,reason="model checking applies; its check is not built yet") for p in props if p not in claims]
m=dict(version=1,setup_cmd="./build.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the public API suffices. One Rust binary (mc/) explores; see DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed",len(na),"not claimed")
