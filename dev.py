#!/usr/bin/env python3
"""Development helper: dev.py GROUP ENTRIES TIME [rsx args]; builds, explores, replays and pretty-prints."""
import sys, json, subprocess, os, tempfile, threading, time
import check as C
g, ents, t = sys.argv[1:4]
rsx = C.engine(); llvm, z3 = C.tools()
res = {}; t0 = time.time()
ths = [threading.Thread(target=C.build, args=(g, k, res)) for k in ("bc", "nat")]
[x.start() for x in ths]; [x.join() for x in ths]
for k, v in res.items():
    if v[0] != "ok": print(k, v[1][-3000:]); sys.exit(2)
print("build %.1f" % (time.time() - t0))
d = tempfile.mkdtemp(); o = d + "/o.json"
r = subprocess.run([rsx, "--llvm", llvm, "--z3", z3, "--modules", res[g, "bc"][1], "--entries", ents, "--time", t, "--out", o] + sys.argv[4:])
if r.returncode: sys.exit(3)
J = json.load(open(o)); fs = J.pop("functions"); es = J.pop("entries")
print({k: v for k, v in J.items()}, "functions", len(fs))
for e in es:
    vs = e.pop("violations"); ss = e.pop("samples"); print(e)
    ok = 0
    for i, s in enumerate(ss):
        p, st, msg, notes, cov = C.native(res[g, "nat"][1], e["entry"], s["inputs"], d, "s%d" % i)
        if st != "done" or notes != [list(x) for x in s["notes"]]: print("  DISAGREE", s["inputs"], st, msg, C.text_notes(notes), C.text_notes(s["notes"]))
        else: ok += 1
        if i < 3: print("  sample", s["inputs"], C.text_notes(notes))
    print("  validated", ok, "of", len(ss))
    for i, v in enumerate(vs[:int(os.environ.get("NV", "8"))]):
        p, st, msg, notes, cov = C.native(res[g, "nat"][1], e["entry"], v["inputs"], d, "v%d" % i, 20)
        print("  VIOL", v["kind"], v["msg"][:1500], v["inputs"], "\n     native:", st, msg[:250], C.text_notes(notes))
