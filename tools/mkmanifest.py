#!/usr/bin/env python3
"""Writes MANIFEST.json and props.json from the table below (checks exist for props/C*.cpp)."""
import json, os, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
COMMON_REAL = "Caliper runtime, services, common and reader code compiled from /repo's working tree with memory-access instrumentation, libstdc++"
COMMON_STUB = "thread scheduler, pthread mutex/rwlock/cond/once, clocks, sleeps and timers, malloc, /sim/ files (simulated)"
A = ["sequentially consistent memory: interleavings of instrumented accesses and synchronisation are explored, weaker hardware reorderings are not",
     "sampling, not enumeration: a clean batch is evidence, not proof",
     "the library is compiled by clang without GOTCHA, libdw and libunwind based services"]
T = json.load(open(os.path.join(H, "tools", "checks.json")))
have = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(H, "props", "C*.cpp")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, meta, na = [], {}, []
for p in props:
    i = p["id"]
    t = T.get(i, {})
    if i in have and t:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation: " + t["technique"], "level": "exploration", "level_note": t["note"]})
        meta[i] = {"real": COMMON_REAL + ("; " + t["real"] if t.get("real") else ""), "stub": COMMON_STUB + ("; " + t["stub"] if t.get("stub") else ""), "assumptions": A + t.get("assumptions", [])}
    else:
        na.append({"property": i, "reason": t.get("na", "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "python3 build.py --warm", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the seams are compiler instrumentation, symbol interposition and the public API. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump(meta, open(os.path.join(H, "props.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
