#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"./check.sh --build","checks":[],"not_applicable":[],
 "notes":"Every check compiles props/<ID>.cpp against /repo/strtk.hpp (cached by content hash in build/) and explores generated cases; see DESIGN.md. ./check.sh --replay FILE re-runs a saved counterexample."}
for p in P:
    i=p["id"]
    if os.path.exists(f"{V}/props/{i}.cpp"):
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"property-based testing: generated inputs against a reference model, with shrinking; ASan/UBSan; libFuzzer in the thorough tier",
          "level":"exploration","level_note":"Sampled, not exhaustive, unless a facet enumerates a small space; trusts the reference models in props/ and lib/models.hpp, clang 18 sanitizers and libstdc++."})
    else: m["not_applicable"].append({"property":i,"reason":"harness not built yet"})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not applicable")
