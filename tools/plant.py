#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID...   (works in /tmp/sr, a clone of /repo with its own target directory)

For each /verif/seeded/ID: the patch applies to HEAD, builds, passes the baseline tests, and demo.sh
passes on the clean clone and fails on the patched one."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sr"
env = dict(os.environ, HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="1.92.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_OPT_LEVEL="1", PROPTEST_RNG_SEED="1")
SCOPE = "--workspace --exclude vm-js --exclude runtime-js --exclude webidl-vm-js --exclude test262-semantic".split()


def sh(*a, **k):
    return subprocess.run(a, cwd=k.pop("cwd", W), env=k.pop("env", env), capture_output=True, text=True, **k)


def main():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    head = sh("git", "rev-parse", "HEAD", cwd="/repo").stdout.strip()
    if not os.path.exists(W):
        sh("git", "clone", "-q", "/repo", W, cwd="/tmp")
    for i in sys.argv[1:]:
        d = os.path.join(V, "seeded", i)
        sh("git", "fetch", "-q", "origin")
        sh("git", "checkout", "-qf", head)
        sh("git", "clean", "-fdq")
        a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=W, capture_output=True, text=True, timeout=600)
        if a.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE", a.stdout[-1500:], a.stderr[-3000:], flush=True)
            continue
        r = sh("git", "apply", os.path.join(d, "patch.diff"))
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr, flush=True)
            continue
        b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=W, capture_output=True, text=True, timeout=600)
        if not b.returncode:
            print(i, "DEMO PASSES WITH THE PATCH", b.stdout[-1500:], b.stderr[-500:], flush=True)
            continue
        print(i, "demo ok:", (b.stdout[-300:] + b.stderr[-300:]).replace("\n", " | "), flush=True)
        if "--demo" in os.environ.get("PLANT", ""):
            continue
        r = sh("cargo", "nextest", "run", *SCOPE, "--no-fail-fast", "--offline", "--test-threads", "8", timeout=3000)
        out = r.stdout + r.stderr
        bad = set()
        for m in re.finditer(r"^\s+(?:FAIL|TIMEOUT|SIGABRT|SIGSEGV|ABORT)[^\]]*\]\s+(?:\(\s*\d+/\d+\)\s+)?(\S+) (\S+)", out, re.M):
            t = m.group(1) + "::" + m.group(2)
            if t in base:
                bad.add(t)
        s = re.findall(r"Summary.*|^error.*", out, re.M)
        print(i, "TESTS", "OK" if not bad and s and "tests run" in s[0] else "BROKEN", s[:2], sorted(bad)[:8], flush=True)
        sh("git", "checkout", "-qf", head)


main()
