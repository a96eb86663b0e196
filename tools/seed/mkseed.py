#!/usr/bin/env python3
"""mkseed.py [ids...]  builds /verif/seeded/<id> from seeds.py: applies each edit to a scratch copy of
/repo, checks build + stable tests + demo, and keeps it if it counts."""
import sys, os, subprocess, shutil, json
sys.path.insert(0, os.path.dirname(__file__))
import seeds
H = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): assert sh("git -C /repo checkout -- . && git -C /repo status --porcelain").stdout.strip() == ""
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
def own_lines(f):
    b = sh(f"git -C /repo blame -s --root -l {f}").stdout.split('\n')
    return b
for s in seeds.SEEDS:
    if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]: continue
    if len(sys.argv) == 1 and os.path.exists(f"{OUT}/{s['id']}/meta.json"): continue
    clean()
    d = f"{OUT}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ("dump_main.rs", "demo.sh"): shutil.copy(f"{H}/{f}", d)
    open(f"{d}/modes.txt", "w").write(s.get('modes', 'mem lazy'))
    for i, c in enumerate(s['cases']):
        open(f"{d}/case{i}.yaml", "wb").write(c.encode() if isinstance(c, str) else c)
    # expected from the unchanged tree
    t = "/tmp/seeddemo"
    os.makedirs(t + "/src", exist_ok=True)
    shutil.copy(f"{H}/dump_main.rs", t + "/src/main.rs")
    open(t + "/Cargo.toml", "w").write('[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nyary={path="/repo"}\n[workspace]\n')
    r = sh("RUSTFLAGS=-Awarnings cargo build -q --offline", cwd=t); assert r.returncode == 0, r.stderr
    for i in range(len(s['cases'])):
        o = subprocess.run([t + "/target/debug/demo", f"{d}/case{i}.yaml", s.get('modes', 'mem lazy')], capture_output=True, text=True, timeout=60)
        open(f"{d}/case{i}.expected", "w").write(o.stdout)
        if s.get('show'): print(o.stdout)
    ok = True
    for f, old, new, *n in s['edits']:
        p = f"{R}/{f}"; x = open(p).read(); k = n[0] if n else 0
        parts = x.split(old)
        if len(parts) < k + 2: print(s['id'], "EDIT NOT FOUND", f, repr(old)); ok = False; break
        pos = len(old.join(parts[:k + 1]))
        x2 = x[:pos] + new + x[pos + len(old):]
        open(p, "w").write(x2)
    if not ok: clean(); shutil.rmtree(d); continue
    diff = sh("git -C /repo diff").stdout
    # changed lines must belong to the base commit
    for f in {e[0] for e in s['edits']}:
        for h in sh(f"git -C /repo diff -U0 {f} | grep '^@@'").stdout.split('\n'):
            if not h: continue
            a = h.split()[1][1:].split(','); st = int(a[0]); ct = int(a[1]) if len(a) > 1 else 1
            if ct == 0: continue
            b = sh(f"git -C /repo blame HEAD --root -l -L {st},{st+ct-1} -- {f}").stdout
            for l in b.split('\n'):
                if l and not l.lstrip('^').startswith(root[:38]): print(s['id'], "NOT ORIGINAL", l[:9], l[60:])
    r = sh("bash /tmp/tst"); res = r.stdout.strip().split('\n')[-1]
    good = res.startswith("missing [] 0 ")
    dm = sh(f"bash {d}/demo.sh", cwd=R)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(f"{d}/meta.json", "w"), indent=1)
    clean()
    dm0 = sh(f"bash {d}/demo.sh", cwd=R)
    keep = good and dm.returncode == 1 and dm0.returncode == 0
    print(s['id'], "KEPT" if keep else "DROPPED", res[:200], "demo", dm.returncode, dm0.returncode, dm.stdout[:300] if not keep else "", dm.stderr[-200:])
    if not keep: shutil.rmtree(d)
