#!/usr/bin/env python3
"""Apply each behaviour-preserving edit to a copy of /repo and run the deductive stage: nothing may be reported.
usage: run.py [--build] [name ...]"""
import os, sys, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..")); sys.path.insert(0, HERE)
import prove, edits
names = [a for a in sys.argv[1:] if not a.startswith("--")] or list(edits.E)
top = tempfile.mkdtemp(prefix="refactor-")
pristine = os.path.join(top, "pristine")
try:
    shutil.copytree("/repo", pristine, ignore=shutil.ignore_patterns("target", ".git"))
    for n in names:
        d = os.path.join(top, "repo")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(pristine, d)
        bad = False
        for f, a, b in edits.E[n]:
            p = os.path.join(d, f); s = open(p).read()
            if a not in s: print(n, "DOES NOT APPLY", f, repr(a[:60])); bad = True; break
            open(p, "w").write(s.replace(a, b, 1))
        if bad: continue
        if "--build" in sys.argv:
            r = subprocess.run(["cargo", "test", "-q", "--offline", "--lib"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(top, "target"), RUSTFLAGS="-Awarnings"), capture_output=True, text=True)
            if r.returncode: print(n, "DOES NOT BUILD", r.stdout[-500:], r.stderr[-1500:]); continue
        prove.REPO = d
        out = prove.run_all(prove.templates(), "quick")
        viol = []; und = []
        for k, v in (out.items() if isinstance(out, dict) else []):
            viol += [(k, x) for x in v.get("failed", [])]; und += [(k, x) for x in v.get("undecided", [])]
        print(n, "ALARM" if viol else "quiet", [str(x)[:160] for x in viol], "undecided", [str(x)[:110] for x in und], flush=True)
finally:
    shutil.rmtree(top, ignore_errors=True)
