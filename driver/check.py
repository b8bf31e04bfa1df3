#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]: decides one property on the working tree of /repo.

Exit 0: held on everything explored. Exit 1, with a line "VIOLATION property=ID replay=PATH": broken. Any other exit
(2) is an error of the check.
"""
import argparse
import functools
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import plan  # noqa: E402

VERIF = build.VERIF


def environment(job):
    env = dict(os.environ)
    env["MAMMON_LITERALS"] = literals()
    env.update(job.get("env", {}))
    return env


@functools.cache
def literals():
    return build.literals()


def run_job(exe, job, tier, seed, tmp, results, key, scale=1.0):
    quick = tier == "quick"
    cases = job["quick"] if quick else job["thorough"]
    out = os.path.join(tmp, "out-%s.json" % key)
    tlimit = job.get("time_quick", 40) if quick else job.get("time_thorough", 600)
    cmd = job.get("wrap", []) + [
        exe, "--prop", job["prop"], "--seed", str(seed), "--cases", str(int(cases)), "--workers",
        str(job.get("workers", build.JOBS)), "--time", str(tlimit * scale), "--case-seconds",
        str(job.get("case_seconds", 30)), "--shrink", "40" if quick else "120", "--out", out, "--tmp", tmp]
    if job.get("sub"):
        cmd += ["--sub", job["sub"]]
    if job.get("fuzz"):
        cmd += ["--fuzz"]
    env = environment(job)
    env.setdefault("ASAN_SYMBOLIZER_PATH", "/usr/bin/llvm-symbolizer")
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors="replace")
    res = {"rc": r.returncode, "output": r.stdout[-3000:], "wall": time.time() - t, "cmd": cmd}
    try:
        with open(out) as f:
            res["report"] = json.load(f)
    except (OSError, ValueError):
        res["report"] = None
    results[key] = res


def startup_crash(exe, job):
    """whether the program dies by itself before it is asked to do anything: in the library's initialization"""
    env = environment(job)
    for _ in range(3):
        r = subprocess.run(job.get("wrap", []) + [exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                           errors="replace")
        out = r.stdout[-1500:]
        if r.returncode >= 0 and r.returncode < 128 and "Sanitizer" not in out and "runtime error" not in out:
            return None
    return "the program crashes when it starts, exit status %d: %s" % (r.returncode, out)


def save_replay(pid, job, report):
    v = report["violation"]
    lines = []
    if not v["sub"]:
        lines = []
    elif v["history"]:
        lines = ["case %d %d %s" % (s, i, n) for n, s, i in v["history"]]
    else:
        lines = ["tape " + v["sub"], " ".join(map(str, v["tape"]))]
    doc = {"property": pid, "job": {k: job[k] for k in job}, "message": v["message"], "first_message": v["first_message"],
           "seed": v["seed"], "case": v["case"], "lines": lines, "replays_failed": v["confirmed"]}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def program_of(b, job):
    p = plan.PROGRAMS[job["program"]]
    return b.program(job["program"], p["units"], p.get("lib", "all"), job.get("preset", "minimal"),
                     job.get("flavour", "release"), p.get("defines", ()), p.get("repo_units", ()))


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    job = doc["job"]
    b = build.Builder()
    exe = program_of(b, job)
    if "prepare" in job:
        plan.prepare(job["prepare"], b)
    b.build()
    env = environment(job)
    if "prepare" in job:
        env.update(plan.prepared_env(job["prepare"], b))
    if not doc["lines"]:
        crash = startup_crash(exe, job)
        if crash:
            print(crash)
            print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1 if crash else 0
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "replay")
        with open(f, "w") as g:
            g.write("\n".join(doc["lines"]) + "\n")
        r = subprocess.run(job.get("wrap", []) + [exe, "--prop", job["prop"], "--replay", f, "--tmp", tmp], env=env)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", help="only the jobs with this in their name")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid = a.id
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") % (1 << 62)
    spec = plan.CHECKS[pid]
    start = time.time()
    b = build.Builder()
    jobs = [dict(j) for j in spec["jobs"] if a.tier == "thorough" or j["quick"]]
    jobs = [j for j in jobs if a.tier == "quick" or j["thorough"]]
    if a.jobs:
        jobs = [j for j in jobs if a.jobs in j["name"]]
    exes = []
    for j in jobs:
        exes.append(program_of(b, j))
        if "prepare" in j:
            plan.prepare(j["prepare"], b)
    b.build()
    for j in jobs:
        if "prepare" in j:
            j["env"] = {**j.get("env", {}), **plan.prepared_env(j["prepare"], b)}
    built = time.time() - start

    results, violation, errors, notes = {}, None, [], []
    with tempfile.TemporaryDirectory(prefix="mammon-" + pid + "-") as tmp:
        background = []
        for k, (j, exe) in enumerate(zip(jobs, exes)):
            if j.get("background"):
                t = threading.Thread(target=run_job, args=(exe, j, a.tier, seed, tmp, results, k))
                t.start()
                background.append((k, t))

        def judge(k):
            nonlocal violation
            j, r = jobs[k], results[k]
            rep = r["report"]
            if rep is None:
                start = startup_crash(exes[k], j)
                if start and violation is None:
                    violation = (j, {"violation": {"sub": "", "history": [], "tape": [], "message": start, "first_message": start,
                                                   "seed": seed, "case": 0, "confirmed": 3}})
                    return
                errors.append("%s: no report (exit %s)\n%s" % (j["name"], r["rc"], r["output"]))
                return
            if rep["violation"]:
                v = rep["violation"]
                if not v["confirmed"] and j.get("fuzz"):  # it takes earlier cases, perhaps: those are for the random jobs
                    notes.append("%s: failed once, and not again: %s" % (j["name"], v["first_message"]))
                    return
                if not v["confirmed"]:
                    # it failed once and not again: does it in another run of the same cases?
                    for _ in range(3):
                        run_job(exes[k], j, a.tier, seed, tmp, results, k)
                        again = results[k]["report"]
                        if again and again["violation"]:
                            rep, v = again, again["violation"]
                            break
                    else:
                        errors.append("%s: failed once, and not again: %s" % (j["name"], v["first_message"]))
                        return
                if violation is None:
                    violation = (j, rep)
            elif rep["error"]:
                errors.append("%s: %s\n%s" % (j["name"], rep["error"], r["output"]))

        for k, (j, exe) in enumerate(zip(jobs, exes)):
            if not j.get("background") and violation is None:
                run_job(exe, j, a.tier, seed, tmp, results, k)
                judge(k)
        for k, t in background:
            t.join()
            if violation is None:
                judge(k)

    evals = nontriv = 0
    samples, covered = [], {}
    for k, r in sorted(results.items()):
        rep = r["report"]
        if not rep:
            continue
        evals += rep["evaluations"]
        nontriv += rep["distinct_nontrivial"]
        samples += [jobs[k]["name"] + ": " + s[:600] for s in rep["samples"][:6]]
        if len(rep["labels"]) > 120:  # the most frequent ones, the others counted
            top = sorted(rep["labels"].items(), key=lambda x: (-x[1], x[0]))
            rep["labels"] = dict(sorted((x[:120], n) for x, n in top[:100]))
            rep["labels"]["(%d other labels)" % (len(top) - 100)] = sum(n for _, n in top[100:])
        covered[jobs[k]["name"]] = {x: rep[x] for x in ("evaluations", "distinct_nontrivial", "checks", "labels", "counts",
                                                        "time_limit_hit", "wall_s")}
        covered[jobs[k]["name"]]["checks"] = rep["checks"]
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": spec["rule"],
                     "samples": samples[:40] or ["(none)"], "jobs": covered},
        "assumptions": spec.get("assumptions", []) + plan.ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2), "violations": 1 if violation else 0,
    }
    if notes:
        ev["coverage"]["notes"] = [e[:2000] for e in notes]
    if errors:
        ev["coverage"]["errors"] = [e[:2000] for e in errors]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s (%s, seed %d): %d cases, %d distinct non-trivial, built in %.1f s, %.1f s in all" %
          (pid, a.tier, seed, evals, nontriv, built, time.time() - start))
    for k, r in sorted(results.items()):
        rep = r["report"]
        if rep:
            print("  %-34s %8d cases %8d non-trivial %6.1f s%s" % (jobs[k]["name"], rep["evaluations"],
                  rep["distinct_nontrivial"], r["wall"], " (time limit)" if rep["time_limit_hit"] else ""))
    if violation:
        j, rep = violation
        v = rep["violation"]
        path = save_replay(pid, j, rep)
        print("job %s, check \"%s\": %s" % (j["name"], v["sub"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    if nontriv < spec.get("least", 50):
        print("too few non-trivial cases: the check decides nothing")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("build failed:\n%s" % e)
        sys.exit(2)
