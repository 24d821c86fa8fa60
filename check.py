#!/usr/bin/env python3
"""Runs the deterministic simulation for one property.

   check.py <property> [--tier quick|thorough] [--budget SECONDS] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Anything else: the check itself failed.
"""
import argparse, glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

QUICK_S, THOROUGH_S = 45, 600
NW = max(1, min(8, len(os.sched_getaffinity(0))))


def norm(m):
    return re.sub(r"\d+", "", m)[:90]


def replay(binary, path, out=None):
    cmd = [binary, "replay", path] + (["--out", out] if out else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=180)
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    return {"status": "harness", "hash": "", "msg": "replay gave no result", "bt": []}


class Minimiser:
    """ddmin over the operations and the decision trace of a replay file."""

    def __init__(self, binary, path, work, budget):
        self.bin, self.work, self.end = binary, work, time.time() + budget
        self.lines = open(path).read().splitlines()
        self.trials = 0
        r = replay(binary, path)
        self.sig = (r["status"], norm(r["msg"]))
        self.ok = r["status"] in ("violation", "crash")

    def test(self, lines):
        self.trials += 1
        f = os.path.join(self.work, f"min{os.getpid()}.replay")
        open(f, "w").write("\n".join(lines) + "\n")
        try:
            r = replay(self.bin, f)
        except subprocess.TimeoutExpired:
            return False
        return (r["status"], norm(r["msg"])) == self.sig

    def ddmin(self, prefix):
        idx = [i for i, l in enumerate(self.lines) if l.startswith(prefix)]
        if not idx:
            return
        keep = idx
        # try removing everything first
        if self._try(keep, []):
            return
        n = 2
        keep = [i for i, l in enumerate(self.lines) if l.startswith(prefix)]
        while len(keep) >= 1 and time.time() < self.end:
            size = max(1, len(keep) // n)
            done = False
            for s in range(0, len(keep), size):
                if time.time() > self.end:
                    return
                cand = keep[:s] + keep[s + size:]
                if self._try(keep, cand):
                    keep = [i for i, l in enumerate(self.lines) if l.startswith(prefix)]
                    n = max(2, n - 1)
                    done = True
                    break
            if not done:
                if size == 1:
                    return
                n = min(len(keep), n * 2)

    def _try(self, all_idx, keep_idx):
        drop = set(all_idx) - set(keep_idx)
        cand = [l for i, l in enumerate(self.lines) if i not in drop]
        if self.test(cand):
            self.lines = cand
            return True
        return False

    def run(self):
        if self.ok:
            for _ in range(2):
                self.ddmin("t ")
                self.ddmin("op ")
                if time.time() > self.end:
                    break
        return self.lines


def symbolise(binary, bt):
    if not bt:
        return []
    try:
        p = subprocess.run(["llvm-symbolizer-18", "--obj=" + binary, "-C", "--functions=short"] + bt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        out = []
        for b in p.stdout.strip().split("\n\n"):
            ls = b.splitlines()
            if len(ls) >= 2 and "??" not in ls[0]:
                out.append(ls[0] + " " + re.sub(r"^.*/(src|include|sim|props)/", r"\1/", ls[1]))
        return out[:12]
    except Exception:
        return []


def load_known(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k["status"] == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    try:
        binary = B.build([prop])[prop]
    except B.BuildError as e:
        print(f"check error: {e}")
        return 2
    build_s = time.time() - t0
    if a.replay:
        r1, r2 = replay(binary, a.replay), replay(binary, a.replay)
        print(json.dumps(r1, indent=1))
        print("\n".join("    " + s for s in symbolise(binary, r1["bt"])))
        print("repeatable:", r1["hash"] == r2["hash"])
        if r1["status"] in ("violation", "crash"):
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if r1["status"] == "ok" else 2

    budget = a.budget or (QUICK_S if a.tier == "quick" else THOROUGH_S)
    work = os.path.join(HERE, ".work" + os.path.basename(B.BUILD)[len(".build"):], prop)
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(os.path.join(work, "*.replay")):
        os.unlink(f)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    known = load_known(prop)
    kargs = sum([["--known", k["match"]] for k in known], [])
    env = {k: v for k, v in os.environ.items() if not k.startswith("CALI_")}
    base = a.seed * 1_000_000_000
    procs = []
    for w in range(NW):
        cmd = [binary, "run", "--seeds", str(base + w), str(base + 900_000_000), "--step", str(NW), "--budget", str(budget),
               "--vdir", work, "--cpu", str(w), "--maxviol", "1000000" if a.keep_going else "12"] + kargs
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=work, env=env))
    events, sums, broken = [], [], 0
    for p in procs:
        out, _ = p.communicate(timeout=budget + 400)
        s = None
        for line in out.splitlines():
            if not line.startswith("{"):
                continue
            e = json.loads(line)
            if e["ev"] == "summary":
                s = e
            else:
                events.append(e)
        if s is None:
            broken += 1
        else:
            sums.append(s)

    tot = lambda k: sum(s[k] for s in sums)
    scheds = set()
    faults, probes, choices = {}, {}, {}
    for s in sums:
        scheds.update(s["sched"])
        for k, (n, r) in s["choices"].items():
            d = faults if k.startswith("f_") else choices
            o = d.get(k, [0, 0])
            d[k] = [o[0] + n, o[1] + r]
        for k, (n, r) in s["probes"].items():
            o = probes.get(k, [0, 0])
            probes[k] = [o[0] + n, o[1] + r]
    wall = max([s["wall"] for s in sums], default=0.001)

    bad = [e for e in events if e["ev"] in ("violation", "crash")]
    harness = [e for e in events if e["ev"] == "harness"]
    nondet = [e for e in events if e["ev"] == "nondet"]
    kinds = {}
    for e in bad:
        kinds.setdefault(norm(e["msg"]), []).append(e)
    reported, khits, unrepeat, stalls = [], {}, [], 0
    for kmsg, es in kinds.items():
        kf = next((k for k in known if k["match"] in es[0]["msg"]), None)
        if kf:
            khits[kf["id"]] = khits.get(kf["id"], 0) + len(es)
            continue
        rep = None
        for e in es:
            if not e["repeat"]:
                continue
            r1 = replay(binary, e["file"])
            r2 = replay(binary, e["file"])
            if r1["status"] in ("violation", "crash") and r1["hash"] == r2["hash"] and norm(r1["msg"]) == norm(e["msg"]):
                rep = e
                break
        if not rep and all("limit (" in e["msg"] and "outside simulated code" in e["msg"] for e in es):
            stalls += len(es)  # a time limit that the same seed does not exceed again: the machine was busy
            continue
        if not rep:
            unrepeat.append(es[0])
            continue
        reported.append(rep)
    final = []
    for n, e in enumerate(reported[:4]):
        m = Minimiser(binary, e["file"], work, 25 if n == 0 else 8)
        lines = m.run()
        path = os.path.join(rdir, f"{prop}-{e['seed']}.replay")
        tmp = os.path.join(work, "final.replay")
        open(tmp, "w").write("\n".join(lines) + "\n")
        r = replay(binary, tmp, out=path)
        r2 = replay(binary, path)
        if not (r2["status"] in ("violation", "crash") and norm(r2["msg"]) == norm(e["msg"])):
            # fall back to the unminimised trace
            open(path, "w").write(open(e["file"]).read())
            r2 = replay(binary, path)
        bt = symbolise(binary, r2["bt"])
        with open(path, "a") as f:
            f.write("".join(f"# at {x}\n" for x in bt))
            f.write(f"# replay with: python3 check.py {prop} --replay {path}\n")
        nl = sum(l.startswith(("t ", "op ")) for l in lines)
        print(f"{e['ev']}: {r2['msg']}")
        for x in bt[:8]:
            print("    at", x)
        print(f"    seed {e['seed']}, minimised to {sum(l.startswith('op ') for l in lines)} operations and {sum(l.startswith('t ') for l in lines)} scheduling/fault decisions ({m.trials} trials)")
        print(f"VIOLATION property={prop} replay={path}")
        final.append({"msg": r2["msg"], "seed": e["seed"], "replay": path, "size": nl})

    meta = json.load(open(os.path.join(HERE, "props.json"))).get(prop, {})
    runs = tot("runs") if sums else 0
    samples = []
    for s in (base, base + 1):
        try:
            p = subprocess.run([binary, "dump", "--seeds", str(s), str(s + 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, cwd=work, env=env)
            ls = [l for l in p.stdout.splitlines() if not l.startswith("#")]
            samples.append({"seed": s, "plan_and_trace_head": ls[:3] + [l for l in ls if l.startswith("param")][:20] + [l for l in ls if l.startswith("op")][:12] + [l for l in ls if l.startswith("t ")][:12]})
        except Exception as ex:
            samples.append({"seed": s, "error": str(ex)})
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(scheds),
            "rule": "one evaluation = one simulated run of the real library (plan and every scheduling/fault decision derived from one seed); distinct = distinct hash of the sequence of context switches (thread, thread-local step, target); runs whose sequence coincides count once, so runs without any interleaving choice collapse into one",
            "samples": samples,
            "runs_per_hour_one_seed_each": int(runs / wall * 3600),
            "wall_exploration_s": round(wall, 1), "build_s": round(build_s, 1), "workers": NW,
            "simulated_time_s": round(tot("sim_ns") / 1e9, 3) if sums else 0,
            "scheduling_points": tot("points") if sums else 0, "context_switches": tot("switches") if sums else 0,
            "instrumented_accesses": tot("accs") if sums else 0, "simulated_io_calls": tot("io_calls") if sums else 0,
            "strategies": {k: tot(k) for k in ("serial", "walk", "pct")} if sums else {},
            "runs_with_injected_faults": tot("faulty_runs") if sums else 0,
            "faults_injected": {k[2:]: {"count": v[0], "runs": v[1]} for k, v in sorted(faults.items())},
            "probes_reached": {k: {"count": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
            "determinism": {"runs_executed_twice": tot("double_checked") if sums else 0, "hash_mismatches": tot("double_mismatch") if sums else 0},
            "real_components": meta.get("real", ""), "stubbed_components": meta.get("stub", ""),
            "known_finding_hits": khits,
            "violation_kinds": [f["msg"] for f in final],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "runs_stopped_by_busy_machine": stalls, "violations": len(reported),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: {runs} runs, {len(scheds)} distinct interleavings, {ev['coverage']['runs_per_hour_one_seed_each']} runs/hour, build {build_s:.0f} s, total {time.time() - t0:.0f} s")
    if final:
        return 1
    if unrepeat:
        print("check error: violation that does not repeat from its seed:", unrepeat[0])
        return 2
    if broken or not sums:
        print(f"check error: {broken} workers died")
        return 2
    if harness:
        print("check error: harness:", harness[0])
        return 2
    if nondet:
        print("warning: runs that did not repeat exactly:", nondet[:3])
    if runs < 50:
        print("check error: too few runs")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
