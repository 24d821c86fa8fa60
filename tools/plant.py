#!/usr/bin/env python3
"""Confirms planted bugs (seeded/<id>) in scratch copies and tells which checks catch them.

   tools/plant.py [--no-check] [--no-test] [--props C01,C02] [--budget S] ID ...

Works in a mount namespace in which copies of /repo and /verif are bound over the originals.
"""
import argparse, glob, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--no-test", action="store_true")
ap.add_argument("--props")
ap.add_argument("--tries", type=int, default=3)
ap.add_argument("--inner")
a = ap.parse_args()


def sh(cmd, timeout=900, cwd="/repo", env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, env=env)
        return p.returncode, p.stdout, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), time.time() - t


if not a.inner:
    rc = 0
    for i in a.ids:
        w = f"/tmp/plant/{i}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        subprocess.check_call("mkdir -p /verif/.build; exec flock /verif/.build/lock cp -a /verif " + w + "/verif", shell=True)
        subprocess.check_call(["mkdir", "-p", w + "/demo"])
        subprocess.check_call(f"cp -a {HERE}/seeded/{i}/. {w}/demo/ && rm -f {w}/demo/meta.json {w}/demo/*.diff", shell=True)
        opts = [x for x in sys.argv[1:] if x not in a.ids]
        cmd = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && exec python3 /verif/tools/plant.py --inner {w} {' '.join(opts)} {i}"
        r = subprocess.run(["unshare", "-m", "bash", "-c", cmd], cwd="/")
        rc |= r.returncode
        shutil.rmtree(w, ignore_errors=True)
    sys.exit(rc)

i, w = a.ids[0], a.inner
d = f"/verif/seeded/{i}"
meta = json.load(open(d + "/meta.json"))
log = open(f"/tmp/plant/{i}.log", "w")
res = []


def note(s):
    res.append(s)
    print(f"{i}: {s}", flush=True)


def go():
    rc, out, _ = sh(["bash", "/opt/vp/build.sh"])
    assert rc == 0
    for k in range(a.tries):
        rc, out, t = sh(["bash", w + "/demo/demo.sh"], 300)
        log.write(f"--- demo clean rc={rc} {t:.1f}s\n{out}\n")
        if rc != 0:
            note(f"BAD demo fails on clean tree rc={rc}: {out[-300:]}")
            return 1
    tc = t
    rc, out, _ = sh(["git", "apply", f"{d}/patch.diff"])
    if rc:
        note("BAD patch does not apply: " + out[-300:])
        return 1
    rc, out, _ = sh(["bash", "/opt/vp/build.sh"])
    if rc:
        note("BAD does not build: " + out[-1500:])
        return 1
    bad = 0
    for k in range(a.tries):
        rc, out, t = sh(["bash", w + "/demo/demo.sh"], 300)
        log.write(f"--- demo patched rc={rc} {t:.1f}s\n{out}\n")
        bad += rc != 0
    if bad < a.tries:
        note(f"BAD demo passes with patch ({bad}/{a.tries} fail)")
        return 1
    note(f"demo ok ({tc:.0f}s clean, {t:.0f}s patched)")
    if not a.no_test:
        rc, out, t = sh(["bash", "/opt/vp/test.sh", w + "/t.json"])
        r = json.load(open(w + "/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        miss = [x for x in stable if x not in set(r["passed"])] if isinstance(stable, list) else []
        note(f"tests: {len(r['passed'])} pass, {len(r['failed'])} fail" + (f" BAD {miss[:5]}" if miss else ""))
        if miss:
            return 1
    if not a.no_check:
        m = json.load(open("/verif/MANIFEST.json"))
        for p in (a.props.split(",") if a.props else [meta["property"]]):
            rc, out, t = sh(["python3", "/verif/check.py", p, "--tier", "quick"], 1200, "/verif")
            log.write(f"--- check {p} rc={rc} {t:.1f}s\n{out}\n")
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + p)]
            note(f"check {p}: {'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'rc=%d' % rc} ({t:.0f}s)")
    return 0


sys.exit(go())
