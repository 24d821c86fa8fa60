#!/usr/bin/env python3
"""Minimise and show one replay file:  min.py PROP FILE [OUT]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check as C
prop, f = sys.argv[1], sys.argv[2]
b = os.path.join(C.B.BUILD, "sim_" + prop)
m = C.Minimiser(b, f, "/tmp", 40)
ls = m.run()
out = sys.argv[3] if len(sys.argv) > 3 else "/tmp/min.replay"
open(out, "w").write("\n".join(ls) + "\n")
r = C.replay(b, out)
print("\n".join(l for l in ls if not l.startswith(("#", "name"))))
print(r["status"], r["msg"])
for x in C.symbolise(b, r["bt"]): print("   ", x)
