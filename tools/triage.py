#!/usr/bin/env python3
"""triage.py PROP [SECONDS] [SEED0]: run on all cores, group what fails by message."""
import sys, os, json, re, subprocess, time
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import build as B, check as C
prop, budget, s0 = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 15, int(sys.argv[3]) if len(sys.argv) > 3 else 7_000_000_000
b = B.build([prop])[prop]
work = os.path.join(H, ".work", "triage-" + prop); os.makedirs(work, exist_ok=True)
for f in os.listdir(work): os.unlink(os.path.join(work, f))
ps = [subprocess.Popen([b, "run", "--seeds", str(s0 + w), str(s0 + 10**9), "--step", "8", "--budget", str(budget), "--vdir", work, "--cpu", str(w), "--maxviol", "100000"],
      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=work) for w in range(8)]
g, runs, probes, dm, dc = {}, 0, {}, 0, 0
for p in ps:
    out, _ = p.communicate()
    for l in out.splitlines():
        if not l.startswith("{"): continue
        e = json.loads(l)
        if e["ev"] == "summary":
            runs += e["runs"]; dm += e["double_mismatch"]; dc += e["double_checked"]
            for k, v in e["probes"].items(): probes[k] = [a + b for a, b in zip(probes.get(k, [0, 0]), v)]
            for k, v in e["choices"].items(): probes["choice " + k] = [a + b for a, b in zip(probes.get("choice " + k, [0, 0]), v)]
            probes["sim_s"] = [probes.get("sim_s", [0, 0])[0] + e["sim_ns"] / 1e9, 0]
            probes["points"] = [probes.get("points", [0, 0])[0] + e["points"], 0]
        else:
            m = re.sub(r"0x[0-9a-f]+", "0x", e.get("msg", "")); m = re.sub(r"\( t0:.*", "", m); m = re.sub(r"\[.*", "[", re.sub(r"\d+", "N", m))[:110]
            g.setdefault((e["ev"], m), []).append(e)
print(runs, "runs", runs / budget / 8, "per core-second; double checks", dc, "mismatches", dm)
print({k: (round(v[0], 1), v[1]) for k, v in probes.items()})
for (ev, m), es in sorted(g.items(), key=lambda x: -len(x[1]))[:20]:
    e = min(es, key=lambda e: e.get("seed", 0))
    print(f"{len(es):6d} {ev} {e.get('msg','')[:330]}  seed {e.get('seed')} repeat {e.get('repeat')}  {e.get('file','')}")
    for x in C.symbolise(b, e.get("bt", []) or [])[:5]: print("          at", x)
