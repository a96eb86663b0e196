#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's current source:
  1. deductive stage: tools/prove.py extracts the functions the property depends on from /repo,
     joins them with the contracts of /verif/contracts and lets Verus discharge every obligation;
  2. bounded stage: the input families of /verif/bounded run against the real crate (stand-in for
     what is not under contract, and the search for a failing input when an obligation fails).
Exit 0: held on everything explored. Exit 1 with a VIOLATION line otherwise.
"""
import json, os, subprocess, sys, time, fcntl, glob

HERE = os.path.dirname(os.path.abspath(__file__))
BND = os.path.join(HERE, "bounded")
REPLAY = os.path.join(HERE, "replay")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
BIN = os.path.join(BND, "target/debug/check")


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build():
    with open(os.path.join(HERE, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BND, "target"), RUSTFLAGS="-Awarnings")
        r = subprocess.run(["cargo", "build", "-q", "--offline", "--bin", "check"], cwd=BND, env=env, capture_output=True, text=True)
    if r.returncode:
        die("the harness does not build against /repo\n" + r.stderr[-4000:])


def run_bounded(prop, tier, seed, extra=(), timeout=800):
    cmd = [BIN, "--property", prop, "--tier", tier, "--seed", str(seed), "--known", KNOWN, *extra]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    lines = [l for l in r.stdout.split("\n") if l.startswith("{")]
    if r.returncode in (0, 1) and lines:
        return json.loads(lines[-1]), None
    return None, f"the harness ended with status {r.returncode}: {r.stderr[-600:]}"


def bounded(prop, tier, seed, limit):
    res, err = run_bounded(prop, tier, seed, ["--limit", str(limit)], timeout=limit + 120)
    if res is not None:
        return res
    # the process died (stack overflow, abort): find the case
    pf = os.path.join(REPLAY, f".progress.{prop}.{os.getpid()}")
    os.makedirs(REPLAY, exist_ok=True)
    suites = [None]
    run_bounded(prop, tier, seed, ["--limit", str(limit), "--progress", pf], timeout=limit + 120)
    cands = set()
    for f in glob.glob(pf + ".*"):
        t = open(f).read().strip()
        if t:
            cands.add(int(t))
        os.remove(f)
    r = subprocess.run([BIN, "--property", prop, "--tier", tier, "--seed", str(seed), "--list"], capture_output=True, text=True)
    names = r.stdout.splitlines()
    for i in sorted(cands):
        for n in names:
            got, e = run_bounded(prop, tier, seed, ["--suite", n, "--index", str(i)], timeout=60)
            if got is None:
                return {"evaluations": 1, "distinct_nontrivial": 0, "suites": [], "samples": [], "failing": 1, "known": [],
                        "failure": {"suite": n, "index": i, "input": f"case {i}", "message": "the process dies: " + (e or "")}}
    die("the harness died and no single case reproduces it: " + str(err))


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    t0 = time.time()
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        build()
        if "suite" not in r:
            print(json.dumps(r, indent=1))
            sys.exit(0)
        res, err = run_bounded(prop, r["tier"], r["seed"], ["--suite", r["suite"], "--index", str(r["index"])])
        print(json.dumps(res, indent=1) if res else err)
        sys.exit(0 if res and not res["failing"] else 1)
    build()
    import importlib.util
    proof = None
    pv = os.path.join(HERE, "tools/prove.py")
    if os.path.exists(pv):
        spec = importlib.util.spec_from_file_location("prove", pv)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        proof = m.prove(prop, tier)
    limit = 300 if tier == "quick" else 3600
    b = bounded(prop, tier, seed, limit)
    status, viol, line = 0, 0, None
    rp = os.path.join(REPLAY, f"{prop}.json")
    broken = proof["failed"] if proof else []
    if broken and not b["failure"] and tier == "quick":
        # an obligation fails and no quick case does: look for the input in the deep families
        deep, _ = run_bounded(prop, "thorough", seed, ["--limit", "240"], timeout=330)
        if deep and deep["failure"]:
            b, tier_of_case = deep, "thorough"
        else:
            tier_of_case = tier
    else:
        tier_of_case = tier
    if b["failure"]:
        viol += 1
        rec = dict(b["failure"], property=prop, tier=tier_of_case, seed=seed, failing_cases=b["failing"], failed_obligations=broken,
                   how=f"python3 check.py {prop} --replay {rp}")
        json.dump(rec, open(rp, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={rp}"
        print("failing input:", json.dumps(b["failure"]["input"]), "--", b["failure"]["message"][:400])
        for o in broken:
            print("failed obligation:", o["function"], o["message"])
        status = 1
    elif broken:
        viol += len(broken)
        json.dump({"property": prop, "failed_obligations": broken}, open(rp, "w"), indent=1)
        for o in broken:
            print("failed obligation:", o["function"], o["message"])
        line = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
        status = 1
    for k in b["known"]:
        print(f"KNOWN-FINDING: property={prop} {json.dumps(k)}")
    cov = {"evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"],
           "rule": "bounded stand-in: every case of the listed families runs on the real crate against an independent oracle; a case is non-trivial when the property's premise applies to it, and distinct by its input text",
           "samples": b["samples"][:6], "bounded_families": b["suites"]}
    ass = ["bounded stage: holds for the listed families only (bounded, not proved)"]
    level = "exploration"
    if proof:
        level = json.load(open(os.path.join(HERE, "tools/notes.json"))).get(prop, {}).get("level", "exploration")
        cov.update(proof["coverage"])
        ass = proof["assumptions"] + ass
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass,
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    if line:
        print(line)
    else:
        print(f"{prop} held: {b['evaluations']} cases" + (f", {proof['coverage']['discharged']}/{proof['coverage']['obligations']} obligations" if proof else "") + f", {time.time()-t0:.1f} s")
    sys.exit(status)


main()
