#!/usr/bin/env python3
"""Run the check of one property:  check.py ID [quick|thorough]

Builds the harness from /repo's working tree, searches generated inputs for a
violation, shrinks and replays what it finds, and writes evidence/<ID>.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import checks

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_lines(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def run_cpp(pid, leg, tier, seed, tmp, replay, violated):
    exe = build.build(leg["group"], leg.get("variant", "plain"), leg.get("section", pid))
    prop = leg.get("section", pid)
    cases, budget = leg[tier]
    stats = os.path.join(tmp, "stats.json")
    pre = []
    if leg.get("variant") == "tsan" and shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0:
        pre = ["setarch", "-R"]   # the race detector wants a predictable address space
    cmd = pre + [exe, prop, "--seed", str(seed), "--cases", str(cases), "--workers", str(leg.get("workers", 8)),
           "--budget", str(budget), "--out", stats, "--replay-out", replay, "--known", KNOWN,
           "--shrink", "60" if tier == "thorough" else "25"]
    if "sub" in leg:
        cmd += ["--sub", leg["sub"]]
    if leg.get("crash_only"):
        cmd += ["--crash-only", "1"]   # wrong values are the business of the section's own property
    env = dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:abort_on_error=1",
               TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:die_after_fork=0")
    seen = []
    for attempt in range(2):
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=budget + 400)
        if not os.path.exists(stats):
            raise RuntimeError("harness ended with %d and no statistics: %s" % (r.returncode, r.stderr[-2000:]))
        st = json.load(open(stats))
        if r.returncode in (0, 1):
            break
        m = re.match(r"failure in sub-check (\S+) case \d+ did not reproduce \((.*)", st["fail"]["msg"], re.S)
        if m and not m.group(2).startswith("hang") and not m.group(2).startswith("worker ended with wait status 9)"):
            seen.append((m.group(1), m.group(2).split(":")[0]))
    if r.returncode == 4 and len(seen) == 2 and seen[0] == seen[1]:
        # the same sub-check failed the same way in two whole runs (a race, or memory that is read before it is written)
        with open(replay, "w") as f:
            f.write("# %s\n# depends on timing or memory layout; replay: the run itself\n# %s\n" % (st["fail"]["msg"], " ".join(cmd)))
        violated.append((replay, "%s: %s" % (seen[0][0], st["fail"]["msg"])))
        return st
    if r.returncode == 1:
        fails = 0
        for _ in range(3):
            q = subprocess.run(pre + [exe, prop, "--replay", replay] + (["--crash-only", "1"] if leg.get("crash_only") else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace")
            fails += q.returncode == 1
        key = st["fail"]["key"]
        if fails >= 2 or (fails and key != "hang"):
            with open(replay, "a") as f:
                f.write("# leg: %s %s\n# replay: %s %s --replay %s\n" % (leg["group"], leg.get("variant", "plain"), exe, prop, replay))
            violated.append((replay, st["fail"]["sub"] + ": " + st["fail"]["msg"]))
        else:
            print("note: a failure did not reproduce and is not reported: " + key)
    elif r.returncode != 0:
        print("note: a failure did not reproduce and is not reported: " + str(st["fail"]))
    return st


def run_py(pid, leg, tier, seed, tmp, replay, violated):
    import pymod
    moddir = pymod.build_module()
    cases, budget = leg[tier]
    stats = os.path.join(tmp, "stats.json")
    cmd = [leg.get("python", "/usr/bin/python3"), os.path.join(build.HARNESS, leg["script"]), pid, "--seed", str(seed), "--cases", str(cases),
           "--budget", str(budget), "--out", stats, "--replay-out", replay, "--known", KNOWN, "--workers", "8"]
    env = dict(os.environ, PYTHONPATH=moddir, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=budget + 400)
    if not os.path.exists(stats):
        raise RuntimeError("python harness ended with %d and no statistics: %s" % (r.returncode, r.stderr[-2000:]))
    st = json.load(open(stats))
    if r.returncode == 1:
        fails = 0
        for _ in range(3):
            q = subprocess.run(cmd[:3] + ["--replay", replay], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            fails += q.returncode not in (0,)
        if fails >= 2:
            violated.append((replay, st["fail"]["sub"] + ": " + st["fail"]["msg"]))
        else:
            print("note: a failure did not reproduce and is not reported: " + str(st["fail"]))
    return st


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = checks.CHECKS[pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    violated, legs_out = [], []
    ev = nt = kn = 0
    samples = []
    for i, leg in enumerate(conf["legs"]):
        if not leg[tier][0]:
            continue   # thorough only
        replay = os.path.join(VERIF, "replays", "%s-%s%s.replay" % (pid, tier, "-%d" % i if i else ""))
        if os.path.exists(replay):
            os.unlink(replay)
        with tempfile.TemporaryDirectory() as tmp:
            st = (run_py if "script" in leg else run_cpp)(pid, leg, tier, seed, tmp, replay, violated)
        ev += st["evaluations"]; nt += st["distinct_nontrivial"]; kn += st.get("known", 0)
        for s in st["subs"]:
            for x in s["samples"][:1]:
                samples.append("%s: %s" % (s["name"], x))
        legs_out.append({"leg": leg.get("group", leg.get("script")), "variant": leg.get("variant", "plain"), "generation_s": round(st["gen_s"], 2),
                         "sub_checks": [{k: s[k] for k in ("name", "planned", "cases", "distinct_nontrivial", "labels")} for s in st["subs"]]})
        if violated:
            break
    for l in known_lines(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, l))
    out = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": conf["rule"], "samples": samples[:8] or ["(none recorded)"],
                        "cases_matching_known_findings": kn, "legs": legs_out},
           "assumptions": conf.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
           "wall_s": round(time.time() - t0, 2), "violations": len(violated)}
    tmpf = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmpf, "w") as f:
        json.dump(out, f, indent=1)
    os.replace(tmpf, os.path.join(VERIF, "evidence", pid + ".json"))
    for replay, msg in violated:
        print("%s %s" % (pid, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    if not violated:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev, nt, time.time() - t0))
    sys.exit(1 if violated else 0)


if __name__ == "__main__":
    try:
        main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("ERROR: the check could not decide: %s" % e)
        sys.exit(2)
