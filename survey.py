#!/usr/bin/env python3
"""Development helper: survey.py GROUP ENTRY TIME MAXVIOL KEY[,KEY] -- lists violations grouped by some choices (no native replay)."""
import sys, json, subprocess, os, tempfile, collections
import check as C
g, ent, t, mv = sys.argv[1:5]
rsx = C.engine(); llvm, z3 = C.tools(); res = {}
C.build(g, "bc", res)
if res[g, "bc"][0] != "ok": print("\n".join(l for l in res[g, "bc"][1].splitlines() if not l.startswith("warning"))[-5000:]); sys.exit(2)
o = tempfile.mkdtemp() + "/o.json"
os.environ["RSX_PER_MSG"] = "100000"
subprocess.run([rsx, "--llvm", llvm, "--z3", z3, "--modules", res[g, "bc"][1], "--entries", ent, "--time", t, "--out", o, "--max-violations", mv], stderr=None if os.environ.get("RSX_DEBUG") else subprocess.DEVNULL)
J = json.load(open(o))
for e in J["entries"]:
    print({k: v for k, v in e.items() if k not in ("violations", "samples")})
    keys = sys.argv[5].split(",") if len(sys.argv) > 5 else []
    grp = collections.OrderedDict()
    for v in e["violations"]:
        n = C.text_notes(v["notes"])
        k = tuple(v["inputs"].get(x) for x in keys) if keys else 0
        grp.setdefault((v["msg"].split("\n")[0][:200],) + (k if keys else ()), []).append((v["inputs"], n))
    for k, l in sorted(grp.items(), key=lambda x: -len(x[1])):
        print(len(l), k)
        for i, n in sorted(l, key=lambda x: sum(len(y) for z in x[1].values() for y in z))[:int(os.environ.get("NS", "2"))]:
            print("      ", {a: (b[0][:300] if len(b) == 1 else b) for a, b in n.items() if os.environ.get("BA") or a not in ("before", "after")})
