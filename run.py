#!/usr/bin/env python3
"""Driver: python3 run.py check <PROP> [quick|thorough]

For each property: (1) build the harness from /repo's working tree, (2) model-check the TLA+
specification with TLC, (3) run the real code and record traces, (4) have TLC decide whether every
recorded trace is a behaviour of the specification.  Exit 0 / 1 (VIOLATION) / 2 (machinery error).
"""
import json, os, re, subprocess, sys, time, shutil, collections

ROOT = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(ROOT, "specs")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402


class ToolError(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", ROOT + "/harness/Cargo.toml"], 800, env=env)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "vh")


def classpath():
    d = "/opt/veriftools/tla"
    return ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar"))


def tlc(module, cfg, workdir, env=None, workers="auto", timeout=840, extra=(), heap="6g"):
    meta = os.path.join(workdir, "tlc-" + os.path.splitext(cfg)[0])
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", classpath(), "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = sh(cmd, timeout, cwd=SPECS, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(rc=r.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t0)


def tail(out, n=60):
    return "\n".join(out.splitlines()[-n:])


def rejected(out):
    """(trace index, step index) of the last printed state, for a deadlock/invariant failure."""
    m = re.search(r'<<"REJECTED", (\d+), (\d+)>>', out)
    if m:
        return int(m.group(1)), int(m.group(2))
    ts = re.findall(r"^/\\ t = (\d+)$", out, re.M)
    ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
    return (int(ts[-1]), int(ls[-1])) if ts and ls else None


def load_known():
    p = os.path.join(ROOT, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    work = os.path.join(ROOT, "out", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    vh = build()
    states = trans = ntraces = nsteps = 0
    violations = []
    known_hits = []
    samples = []
    models = []
    hist = collections.Counter()
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]

    # 1. the specification itself
    for m in spec.get("models", []):
        cfg = m.get(tier, m["quick"])
        r = tlc(m["module"], cfg, work, timeout=m.get("timeout", 800), extra=m.get("extra", ()))
        if r["rc"] != 0 or "Model checking completed. No error has been found." not in r["out"]:
            raise ToolError(f"model {m['module']}/{cfg} did not check:\n" + tail(r["out"]))
        states += r["distinct"]
        trans += r["generated"]
        models.append(dict(module=m["module"], cfg=cfg, distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))

    # 2. conformance of the real code
    for tr in spec.get("traces", []):
        f = os.path.join(work, tr["gen"] + ".ndjson")
        try:
            r = sh([vh, tr["gen"], "--tier", tier, "--seed", str(seed), "--out", f], tr.get("timeout", 600), cwd=work)
        except subprocess.TimeoutExpired:
            # the drivers are bounded: not coming back is itself an observation of the real code
            rp = os.path.join(work, f"replay-{tr['gen']}-hang.json")
            json.dump(dict(property=prop, generator=tr["gen"], seed=seed, tier=tier, failure="the driven code did not return"), open(rp, "w"))
            violations.append((rp, "hang"))
            continue
        if r.returncode != 0:
            part = open(f).read().splitlines() if os.path.exists(f) else []
            rp = os.path.join(work, f"replay-{tr['gen']}-abort.json")
            json.dump(dict(property=prop, generator=tr["gen"], seed=seed, tier=tier, rc=r.returncode,
                           failure="harness process ended abnormally", log=r.stdout[-3000:],
                           after_case=part[-1][:2000] if part else None), open(rp, "w"), indent=1)
            if r.returncode < 0:       # killed by a signal: abort / stack overflow inside the driven code
                violations.append((rp, "process aborted"))
                continue
            raise ToolError("harness failed: " + r.stdout[-3000:])
        lines = open(f).read().splitlines()
        if not lines:
            raise ToolError("no traces recorded by " + tr["gen"])
        for ln in lines:
            o = json.loads(ln)
            if "steps" in o:
                nsteps += len(o["steps"])
                for s in o["steps"]:
                    hist[tr["gen"] + "." + str(s.get("op", "case"))] += 1
            else:
                nsteps += 1
                hist[tr["gen"] + "." + str(o.get("op", "case"))] += 1
        samples.append(json.loads(lines[min(len(lines) - 1, seed % len(lines))]))
        live = list(lines)
        rounds = 0
        while True:
            open(f, "w").write("\n".join(live) + "\n")
            r = tlc(tr["module"], tr["cfg"], work, env={"TRACE": f}, timeout=tr.get("tlc_timeout", 800), heap=tr.get("heap", "10g"),
                    **(dict(workers=1, extra=("-deadlock",)) if tr.get("nondet") else {}))
            ok = r["rc"] == 0 and "Model checking completed. No error has been found." in r["out"]
            states += r["distinct"]
            trans += r["generated"]
            if ok:
                ntraces += len(live)
                break
            pos = rejected(r["out"])
            deadlock = "Deadlock reached" in r["out"] or '"REJECTED"' in r["out"]
            inv = re.search(r"(Invariant|Action property|property) (\S+) (is|was) violated", r["out"])
            if pos is None or not (deadlock or inv):
                raise ToolError(f"TLC failed on {tr['module']}:\n" + tail(r["out"]))
            ti, li = pos
            trace = json.loads(live[ti - 1])
            rp = os.path.join(work, f"replay-{tr['gen']}-{rounds}.json")
            stepno = li
            json.dump(dict(property=prop, generator=tr["gen"], seed=seed, tier=tier, spec=tr["module"],
                           failure=("invariant " + inv.group(2)) if inv else "not a behaviour of the specification",
                           failing_step=stepno,
                           step=(trace.get("steps") or [trace])[min(stepno, len(trace.get("steps") or [1])) - 1] if stepno >= 1 else trace,
                           last_spec_state=r["out"][r["out"].rfind("State "):][:4000],
                           trace=trace), open(rp, "w"), indent=1)
            k = next((k for k in known if k.get("trace_id") and k["trace_id"] == trace.get("id")), None)
            rounds += 1
            if k:
                known_hits.append(k)
                live.pop(ti - 1)
                if rounds > 40:
                    raise ToolError("too many known findings")
                continue
            violations.append((rp, "rejected"))
            break

    cov = dict(states=states, transitions=trans, traces_validated_against_impl=ntraces,
               implementation_steps=nsteps, models=models, operations=dict(sorted(hist.items())),
               samples=[json.dumps(s)[:1500] for s in samples] or ["(none)"])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for rp, why in violations:
        print(f"VIOLATION property={prop} replay={rp}")
    print(f"{prop} {tier}: {len(violations)} violation(s); {ntraces} traces / {nsteps} steps validated, "
          f"{states} spec states, {time.time()-t0:.1f}s")
    return 1 if violations else 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        build()
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        try:
            return check(sys.argv[2], tier)
        except ToolError as e:
            print("TOOL-ERROR", e)
            return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
