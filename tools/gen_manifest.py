#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the checker knows (zkv list)."""
import json, os, subprocess
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(D+"/properties.jsonl")]
have=subprocess.run([D+"/harness/target/release/zkv","list"],capture_output=True,text=True).stdout.split()
hooks=subprocess.run(["git","-C","/repo","log","--reverse","--format=%H","--grep=^verif hook"],capture_output=True,text=True).stdout.split()
TECH={
"C01":"property-based testing against a direct definition of the multilinear extension",
"C02":"model-based property testing of construction histories against field expressions",
"C03":"property-based testing of honest proofs against direct summation and evaluation",
"C04":"property-based fault injection into proofs; oracle: recomputed subclaim",
"C05":"property-based testing over vanishing and almost vanishing polynomials plus fault injection",
"C06":"property-based testing (round trip, binding, metamorphic linearity, serialization)",
"C07":"property-based fault injection into batch openings, including coordinated forgeries",
"C08":"metamorphic property testing of append/challenge histories and single edits",
"C09":"stateful model-based testing of tracker operation histories",
"C10":"stateful differential testing, prover tracker against verifier tracker",
"C11":"stateful property testing of claim histories through the whole pipeline",
"C12":"stateful property testing with false claims and fault injection into compiled proofs",
"C26":"differential property testing of repeated runs and thread counts",
"C27":"stateful property testing of operator sequences in one proof, composed from the single operators' generators and oracles",
"C28":"structure-aware fuzzing of proof shapes with a no-crash, no-hang oracle"}
checks=[]
for i in ids:
    if i not in have: continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":TECH.get(i,"property-based testing of the whole prove/verify pipeline against a plain acceptance relation, with forged advice"),
      "level":"exploration",
      "level_note":"generated cases against an explicit oracle, shrunk failures; sizes bounded (see DESIGN.md)"})
na=[{"property":i,"reason":"check under construction"} for i in ids if i not in have]
m={"version":1,"setup_cmd":"./build.sh release && ./build.sh dbg",
 "hooks":{"guard":"--cfg zksql_verif","enable":"RUSTFLAGS=\"--cfg zksql_verif\" (build.sh)","source_commits":hooks},
 "checks":checks,"not_applicable":na,
 "notes":"Known findings and fixed defects: KNOWN_FINDINGS.txt. Replay a failure with: harness/target/release/zkv replay <file>."}
json.dump(m,open(D+"/MANIFEST.json","w"),indent=1)
open(D+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"n/a")
