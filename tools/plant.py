#!/usr/bin/env python3
"""tools/plant.py ID...: confirm planted bugs in a scratch worktree (builds, stable tests pass, demo 0 -> nonzero),
then apply each to /repo, run the property's quick check, and undo.  Options: --check-only, --confirm-only."""
import json, os, re, subprocess, sys, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", INSTA_UPDATE="no", CARGO_TARGET_DIR="/tmp/plant/target")


def sh(c, cwd=W, env=ENV, t=1200):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)


def worktree():
    os.makedirs("/tmp/plant", exist_ok=True)
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if not os.path.isdir(W):
        sh(f"git worktree prune; git worktree add -f --detach {W} {head}", "/repo")
    sh(f"git checkout -q -f --detach {head} && git clean -fdq")


def tests():
    r = sh("cargo nextest run --workspace --tool-config-file vp:/opt/vp/nextest.toml --profile vp --user-config-file none --no-fail-fast --test-threads 8 --offline --locked")
    if "error: could not compile" in r.stdout or "error[" in r.stdout:
        return None, r.stdout[-3000:]
    fails = sorted(set(re.findall(r"^\s*(?:FAIL|SIGABRT|TIMEOUT)\s.*\]\s+(.*)$", r.stdout, re.M)))
    return fails, r.stdout[-400:]


def demo(i):
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"
    e["DEMO_TARGET"] = "/tmp/plant/demo-target"
    r = sh(f"bash {V}/seeded/{i}/demo.sh", env=e, t=400)
    return r.returncode, r.stdout[-600:]


args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
if "--check-only" not in sys.argv:
    worktree()
    for i in ids:
        sh("git checkout -q -f . ")
        rc0, o0 = demo(i)
        a = sh(f"git apply {V}/seeded/{i}/patch.diff")
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stdout); continue
        fails, log = tests()
        rc1, o1 = demo(i)
        sh("git checkout -q -f .")
        ok = rc0 == 0 and rc1 != 0 and fails == []
        print(i, "CONFIRMED" if ok else "NOT CONFIRMED", f"demo clean={rc0} patched={rc1}", "tests:", fails)
        if not ok:
            print(o0 if rc0 else "", o1 if rc1 == 0 else "", log if fails is None else "")
if "--confirm-only" not in sys.argv:
    for i in ids:
        p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        assert sh("git status --porcelain", "/repo").stdout.strip() == "", "/repo is not clean"
        a = sh(f"git apply {V}/seeded/{i}/patch.diff", "/repo")
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stdout); continue
        try:
            r = sh(f"python3 run.py check {p} quick", V, dict(os.environ, VERIF_SEED="1"))
        finally:
            sh("git checkout -- .", "/repo")
        print(i, p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "ERROR"), "" if r.returncode == 1 else r.stdout[-800:])
