#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's current working tree
check.py ID --replay F    run one saved failing case again
check.py --setup          build everything"""
import json, os, pathlib, shutil, signal, subprocess, sys, time

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "driver"))
from common import *
from jobs import JOBS, ASSUMPTIONS
from configs import CONFIGS


def binary(job):
    try:
        d = cargo_build(job.crate, [job.bin], job.profile, job.features)
    except BuildError:
        if not job.without:
            raise
        # what only this part of the check uses may have changed
        d = cargo_build(job.crate, [job.bin], job.profile, job.features + job.without)
    return place(d / job.bin, f"{job.bin}-{job.variant}")


def build_configurations():
    """The workers of C15. Returns (name, output) of the first configuration that does not build."""
    for name, (features, profile) in CONFIGS.items():
        try:
            d = cargo_build("cfgworker", ["cfgworker"], profile, features)
        except BuildError as e:
            if name == "default":
                raise
            return name, str(e)
        place(d / "cfgworker", f"cfgworker-{name}")
    os.environ["VERIF_WORKERS"] = str(TARGET / "bins")
    os.environ["VERIF_CONFIGS"] = ",".join(CONFIGS)
    return None


def setup():
    forget_stale()
    build_configurations()
    done = set()
    for jobs in JOBS.values():
        for j in jobs:
            k = (j.crate, j.bin, j.profile, j.features)
            if k not in done:
                done.add(k)
                binary(j)


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}

HANG = 5


def hung(pid, j, cmd, replay):
    """A case that did not return, run alone in a fresh process: its replay file if it hangs again."""
    if replay:
        return replay
    f = OUT / "replay" / f"{pid}-{j.variant}-hang.json"
    r = subprocess.run(cmd + ["--replay", str(f)], env=dict(env(), VERIF_CASE_LIMIT_S="150"), cwd=str(OUT))
    return f if r.returncode == HANG else None


def crashed(pid, j, cmd, replay):
    """The code under test took the whole process down (stack overflow, abort). Run again with a
    journal of the running cases and find one that does it alone; its replay file, or None."""
    if replay:
        return replay
    d = OUT / "journal" / f"{pid}.{j.variant}"
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    e = env()
    e["VERIF_JOURNAL"] = str(d)
    subprocess.run(cmd, env=e, cwd=str(OUT))
    for f in sorted(d.glob("*.json")):
        try:
            v = json.loads(f.read_text())
        except ValueError:
            continue
        v.update(property=pid, variant=j.variant, message="the process dies", seed=int(os.environ.get("VERIF_SEED") or 1))
        out = OUT / "replay" / f"{pid}-{j.variant}-crash.json"
        out.write_text(json.dumps(v, indent=1))
        r = subprocess.run(cmd + ["--replay", str(out)], env=env(), cwd=str(OUT))
        if -r.returncode in CRASHES or r.returncode == 1:
            return out
    return None


def known(pid):
    """Known findings: lines `known: property=ID part=PART case=SUBSTRING what fails`."""
    out = []
    p = VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for l in p.read_text().splitlines():
            if l.startswith("known: ") and f"property={pid} " in l + " ":
                out.append(l[len("known: "):])
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == "--setup":
        setup()
        return 0
    jobs = JOBS[pid]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = sys.argv[3]
        want = json.loads(pathlib.Path(replay).read_text())["variant"]
        jobs = [j for j in jobs if j.variant == want]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    for d in ("partial", "replay"):
        (OUT / d).mkdir(parents=True, exist_ok=True)
    EVIDENCE.mkdir(exist_ok=True)
    forget_stale()
    for j in jobs:
        p = OUT / "partial" / f"{pid}.{j.variant}.json"
        if p.exists():
            p.unlink()
    code = 0
    partials = []
    for j in jobs:
        t1 = time.time()
        try:
            if j.bin == "cfgs":
                bad = build_configurations()
                if bad:
                    f = OUT / "replay" / f"{pid}-build-{bad[0]}.json"
                    f.write_text(json.dumps({"property": pid, "variant": j.variant, "part": "build", "case": bad[0], "message": bad[1]}, indent=1))
                    print(f"configuration {bad[0]} {CONFIGS[bad[0]]} does not build, the default one does\n{bad[1][-3000:]}")
                    print(f"VIOLATION property={pid} replay={f}")
                    code = 1
                    break
            exe = binary(j)
        except BuildError as e:
            print(f"error: the harness for {pid} does not build against the current tree\n{e}")
            code = 2
            break
        built = time.time() - t1
        cmd = [str(exe), pid, "--variant", j.variant] + (["--replay", replay] if replay else [])
        r = subprocess.run(cmd, env=env(), cwd=str(OUT))
        if -r.returncode in CRASHES or r.returncode == HANG:
            what = "dies" if r.returncode != HANG else "does not return"
            f = (hung if r.returncode == HANG else crashed)(pid, j, cmd, replay)
            if f:
                print(f"{pid} [{j.variant}]: the process {what} on this case")
                print(f"VIOLATION property={pid} replay={f}")
                code = 1
                break
        f = OUT / "partial" / f"{pid}.{j.variant}.json"
        if f.exists():
            d = json.loads(f.read_text())
            d["build_s"] = round(built, 1)
            partials.append(d)
        if r.returncode != 0:
            code = 1 if r.returncode == 1 else 2
            if code == 2:
                print(f"error: {' '.join(cmd)} ended with {r.returncode}; no verdict")
            break
    if replay:
        return code
    parts = [p for d in partials for p in d["parts"]]
    for k in known(pid):
        print(f"KNOWN-FINDING: {k}")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "rule": "; ".join(dict.fromkeys(f"{p['part']}: {p['rule']}" for p in parts)),
            "samples": [{"part": p["part"], "variant": p["variant"], "case": s} for p in parts for s in p["samples"][:2]],
            "parts": [{k: v for k, v in p.items() if k not in ("samples", "rule")} for p in parts],
            "variants": [{"variant": d["variant"], "build_s": d["build_s"], "run_s": round(d["wall_s"], 2)} for d in partials],
        },
        "assumptions": ASSUMPTIONS.get(pid, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if code == 1 else 0,
    }
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    return code


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
