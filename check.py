#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its LLVM bitcode.

    check.py PROPERTY            (VERIF_TIER=quick|thorough, VERIF_SEED)
    check.py --setup             build the engine and every harness group

Exit 0: nothing violated within the bounds.  Exit 1 + a VIOLATION line: a
counterexample found by the solver and reproduced by the native build.
Anything else: the check could not answer.
"""
import json, os, sys, time, subprocess, hashlib, shutil, threading, glob, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
REPO = os.environ.get("RSX_REPO", "/repo")
B = os.path.join(V, "build")
TC = "1.92.0"
TRIPLE = "x86_64-unknown-linux-gnu"
from props import PROPS, COMMON_ASSUMPTIONS


def die(msg, code=2):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(code)


def find(pats, what):
    for p in pats:
        g = sorted(glob.glob(p))
        if g:
            return g[-1]
    die(what + " not found")


def env_base():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def engine():
    out = os.path.join(V, "engine/target/release/rsx")
    e = env_base()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = os.path.join(V, "engine/target")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=e, capture_output=True, text=True)
    if r.returncode:
        die("engine build failed\n" + r.stderr[-3000:])
    return out


def tree_hashes():
    """content hash of every crate directory of /repo (cargo only looks at mtimes)"""
    h = {}
    for top in sorted(os.listdir(REPO)):
        d = os.path.join(REPO, top)
        if not os.path.isfile(os.path.join(d, "Cargo.toml")) and top != "third_party":
            continue
        m = hashlib.sha256()
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git", "tests", "fixtures", "data"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".json", ".ts", ".txt")):
                    p = os.path.join(root, f)
                    try:
                        m.update(p.encode() + b"\0" + open(p, "rb").read())
                    except OSError:
                        pass
        h[top] = m.hexdigest()
    return h


def freshen(target):
    """drop cargo's fingerprints of crates whose content changed since the last build in this target dir"""
    stamp = os.path.join(target, "rsx-stamp.json")
    new = tree_hashes()
    old = {}
    try:
        old = json.load(open(stamp))
    except Exception:
        pass
    for c in new:
        if old.get(c) != new[c]:
            pats = [c, "derive-visitor"] if c == "third_party" else [c, c.replace("-", "_")]
            for p in pats:
                for d in glob.glob(os.path.join(target, "**", ".fingerprint", p + "-*"), recursive=True):
                    shutil.rmtree(d, ignore_errors=True)
    return lambda: (os.makedirs(target, exist_ok=True), json.dump(new, open(stamp, "w")))


def build(group, kind, res):
    src = os.path.join(V, "h", group)
    target = os.path.join(B, kind + "-" + group)
    e = env_base()
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_TARGET_DIR"] = target
    done = freshen(target)
    if kind == "bc":
        e["RUSTFLAGS"] = "--cfg rsx -C linker-plugin-lto -C panic=abort -C linker=%s -C linker-flavor=gcc" % os.path.join(V, "lib/fakelink")
        cmd = ["cargo", "build", "--release", "--offline", "--target", TRIPLE]
        out = os.path.join(target, TRIPLE, "release", "h" + group)
    else:
        cmd = ["cargo", "build", "--offline"]
        out = os.path.join(target, "debug", "h" + group)
    r = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True)
    if r.returncode:
        res[group, kind] = ("error", r.stderr[-6000:])
        return
    done()
    res[group, kind] = ("ok", out)


def tools():
    llvm = find([os.path.expanduser("~/.rustup/toolchains/%s-*/lib/libLLVM.so.*" % TC), os.path.expanduser("~/.rustup/toolchains/%s-*/lib/libLLVM*.so*" % TC), "/root/.rustup/toolchains/%s-*/lib/libLLVM.so.*" % TC], "libLLVM of the pinned toolchain")
    z3 = find(["/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so*"], "libz3")
    return llvm, z3


def native(binary, entry, inputs, d, n, timeout=60):
    p = os.path.join(d, "%s.%s.inputs" % (entry, n))
    with open(p, "w") as f:
        for k, v in inputs.items():
            f.write("%s=%d\n" % (k, v))
    try:
        r = subprocess.run([binary, entry, p], capture_output=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        return p, "timeout", "", [], set()
    out = r.stdout.decode("utf8", "replace")
    notes, covers, fail = [], set(), None
    for l in out.splitlines():
        if l.startswith("RSX-NOTE "):
            t = l.split(" ")
            notes.append([t[1], t[2] if len(t) > 2 else ""])
        elif l.startswith("RSX-COVER "):
            covers.add(l[10:])
        elif l.startswith("RSX-FAIL "):
            fail = l[9:]
    if r.returncode == 0 and "RSX-DONE" in out:
        return p, "done", "", notes, covers
    if r.returncode == 3:
        return p, "assume", "", notes, covers
    if fail is not None:
        return p, "fail", fail, notes, covers
    return p, "crash", "rc=%d %s" % (r.returncode, r.stderr.decode("utf8", "replace")[-800:]), notes, covers


def text_notes(notes):
    o = {}
    for k, v in notes:
        try:
            o.setdefault(k, []).append(bytes.fromhex(v).decode("utf8", "backslashreplace"))
        except ValueError:
            o.setdefault(k, []).append(v)
    return o


def known():
    o = {}
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                o[d["id"]] = d
    return o


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        engine()
        res = {}
        groups = sorted({j["group"] for p in PROPS.values() for j in p["jobs"]})
        for g in groups:
            for k in ("bc", "nat"):
                build(g, k, res)
                print(g, k, res[g, k][0], flush=True)
                if res[g, k][0] != "ok":
                    print(res[g, k][1])
        sys.exit(0 if all(r[0] == "ok" for r in res.values()) else 2)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(B, exist_ok=True)
    evp = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(evp):
        os.remove(evp)
    rdir = os.path.join(V, "evidence", "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    rsx = engine()
    llvm, z3 = tools()
    groups = sorted({j["group"] for j in P["jobs"]})
    res = {}
    ths = [threading.Thread(target=build, args=(g, k, res)) for g in groups for k in ("bc", "nat")]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for k, v in res.items():
        if v[0] != "ok":
            die("build of harness group %s (%s) failed:\n%s" % (k[0], k[1], v[1]))
    tb = time.time() - t0
    agg = dict(paths=0, symbolic_paths=0, forks=0, asserts=0, symbolic_asserts=0, instrs=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0, domain_decided=0, cache_hits=0, model_hits=0, assumed_out=0)
    functions, per_entry, samples, viols, errors = set(), [], [], [], []
    incomplete = {}
    validated = 0
    kf = known()
    kf_seen = {}
    for n, j in enumerate(P["jobs"]):
        t = j.get("time_" + tier, j["time"])
        entries = j["entries"] + (j.get("thorough_entries", []) if tier == "thorough" else [])
        outp = os.path.join(rdir, "rsx%d.json" % n)
        cmd = [rsx, "--llvm", llvm, "--z3", z3, "--modules", res[j["group"], "bc"][1], "--entries", ",".join(entries), "--time", str(t), "--out", outp,
               "--max-violations", str(j.get("max_viol", 6)), "--samples", str(j.get("samples", 3)), "--query-ms", str(j.get("query_ms", 10000)), "--max-instr", str(j.get("max_instr", 400_000_000)), "--seed", str(seed)]
        if tier == "thorough":
            cmd.append("--z3-all")
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 240)
        except subprocess.TimeoutExpired:
            errors.append("engine did not stop (job %d)" % n)
            continue
        if r.returncode or not os.path.exists(outp):
            errors.append("engine failed on %s: rc=%s %s" % (entries, r.returncode, r.stderr[-2000:]))
            continue
        d = json.load(open(outp))
        os.remove(outp)
        for k in agg:
            if k in d and k != "max_query_s":
                agg[k] += d[k]
        agg["max_query_s"] = max(agg["max_query_s"], d["max_query_s"])
        agg["z3"] = d["z3"]
        functions.update(d["functions"])
        binary = res[j["group"], "nat"][1]
        covers = {}
        for e in d["entries"]:
            for k in ("paths", "symbolic_paths", "forks", "asserts", "symbolic_asserts", "instrs", "assumed_out"):
                agg[k] += e[k]
            for k, c in e["incomplete"].items():
                incomplete[k] = incomplete.get(k, 0) + c
            for k, c in e["covers"].items():
                covers[k] = covers.get(k, 0) + c
            per_entry.append({k: e[k] for k in ("entry", "paths", "symbolic_paths", "forks", "asserts", "instrs", "vars", "covers", "incomplete", "nviol")})
            # translator validation: sample paths must behave identically in the native build
            seen = set()
            for i, s in enumerate(e["samples"]):
                key = json.dumps(s["inputs"], sort_keys=True)
                if key in seen or i >= j.get("validate", 24):
                    continue
                seen.add(key)
                p, st, msg, notes, cov = native(binary, e["entry"], s["inputs"], rdir, "s%d" % i)
                os.remove(p)
                if st != "done" or notes != [list(x) for x in s["notes"]]:
                    errors.append("engine and native build disagree on %s %s: %s %s %s vs %s" % (e["entry"], s["inputs"], st, msg, text_notes(notes), text_notes(s["notes"])))
                else:
                    validated += 1
                    if len(samples) < 12 and (i < 3 or len(samples) < 4):
                        samples.append({"entry": e["entry"], "inputs": s["inputs"], "observed": text_notes(s["notes"])})
            for i, v in enumerate(e["violations"]):
                limit = v["kind"] == "limit"
                p, st, msg, notes, cov = native(binary, e["entry"], v["inputs"], rdir, "v%d" % i, 20 if limit else 60)
                if limit and st != "timeout" and not (st == "crash" and "rc=-" in msg):
                    continue  # a long path, not an endless one: stays among the undecided paths
                if limit:
                    v["msg"] = "does not terminate: " + v["msg"]
                if st in ("fail", "crash", "timeout"):
                    viols.append(dict(entry=e["entry"], kind=v["kind"], msg=v["msg"], native=st + " " + msg, inputs=v["inputs"], notes=text_notes(notes), replay=p))
                else:
                    errors.append("counterexample does not reproduce natively: %s %s %s -> %s" % (e["entry"], v["msg"][:300], v["inputs"], st))
        for c in j.get("covers", []):
            if c not in covers and not e["violations"]:
                errors.append("vacuity guard: %r not reached by %s" % (c, entries))
    new = []
    for v in viols:
        m = re.match(r"(?:fail )?KNOWN:(\S+)", v["native"])
        k = m and kf.get(m.group(1))
        if k and k.get("status") == "known" and k.get("property") == pid:
            kf_seen.setdefault(k["id"], v)
        else:
            new.append(v)
    complete = not incomplete and not errors
    cov = dict(
        states=agg["paths"], transitions=agg["forks"], traces_validated_against_impl=validated + len(viols), samples=samples,
        exhaustive=complete,
        explanation="states = execution paths of the encoded functions explored to their end (each stands for every input satisfying its path condition); transitions = branch decisions resolved by the solver. " + P["bounds"],
        bounds=P["bounds"], functions_encoded=len(functions), functions_sample=sorted(f for f in functions if any(k in f for k in P.get("fn_filter", ["parse_js", "minify_js", "emit_js", "semantic_js", "hir_js", "optimize_js", "types_ts", "typecheck_ts", "diagnostics", "webidl", "conformance"])))[:400],
        queries=dict(total=agg["queries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"], decided_by_value_domains=agg["domain_decided"], cache_hits=agg["cache_hits"], model_hits=agg["model_hits"]),
        solver_s=round(agg["solver_s"], 3), max_query_s=agg["max_query_s"], solver=agg.get("z3"),
        instructions=agg["instrs"], symbolic_paths=agg["symbolic_paths"], assertions=agg["asserts"], symbolic_assertions=agg["symbolic_asserts"],
        paths_outside_assumptions=agg["assumed_out"], entries=per_entry, undecided_paths=incomplete, build_s=round(tb, 1),
        known_findings=sorted(kf_seen))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=COMMON_ASSUMPTIONS + P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if errors:
        ev["coverage"]["errors"] = errors
    json.dump(ev, open(evp, "w"), indent=1)
    print("%s: %d paths (%d symbolic), %d branch decisions, %d queries, %.1fs solver, %d functions encoded, %d traces replayed natively, %s, build %.0fs, wall %.0fs" % (pid, agg["paths"], agg["symbolic_paths"], agg["forks"], agg["queries"], agg["solver_s"], len(functions), validated, "complete within bounds" if complete else "bounds not exhausted %s" % incomplete, tb, time.time() - t0))
    for e in per_entry:
        print("  ", e["entry"], "paths", e["paths"], "covers", e["covers"], "nviol", e["nviol"], e["incomplete"] or "")
    for k in sorted(kf_seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]["what"]))
    for v in new:
        rp = v["replay"].replace(".inputs", ".json")
        json.dump(v, open(rp, "w"), indent=1)
        print("  counterexample:", json.dumps(v)[:3000])
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, new[0]["replay"].replace(".inputs", ".json")), flush=True)
        for e in errors:
            print("CHECK-ERROR:", e)
        sys.exit(1)
    if errors:
        die("\n".join(errors[:10]))
    sys.exit(0)


if __name__ == "__main__":
    main()
