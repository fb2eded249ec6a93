"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
sys.path.insert(0,os.path.join(here,"pbt"))
import registry
claimed=[p for ids in registry.FILES.values() for p in ids]
TECH={
 "C22":("property-based testing with crash-point enumeration","fault_enumeration"),
 "C31":("property-based testing with I/O fault enumeration","fault_enumeration"),
}
NOTES=json.load(open(os.path.join(here,"tools","notes.json"))) if os.path.exists(os.path.join(here,"tools","notes.json")) else {}
DEF="Generated-input search against an independent oracle, deterministic in VERIF_SEED; failures are shrunk and confirmed in a fresh process. It shows absence of violations only on the cases explored. Trusts PyPy, pyron's parser and the oracle in /verif/pbt."
checks=[]
for p in props:
    if p["id"] not in claimed: continue
    t,l=TECH.get(p["id"],("property-based testing (generated cases, explicit oracle, shrinking)","exploration"))
    note=NOTES.get(p["id"],{})
    checks.append(dict(property=p["id"],quick_cmd="./check %s"%p["id"],thorough_cmd="./check %s --tier thorough"%p["id"],
      evidence_file="evidence/%s.json"%p["id"],technique=note.get("technique",t),level=note.get("level",l),level_note=note.get("note",DEF)))
NA={}
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,
  not_applicable=[dict(property=p["id"],reason=NA.get(p["id"],"the check is still being built")) for p in props if p["id"] not in claimed],
  notes="All checks run under the interpreter of the repository (PyPy, /opt/venv) against /repo's working tree; there are no hooks in /repo.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks))
