#!/usr/bin/env python3
"""The deductive stage.

prove(prop, tier): copies /repo's current source, expands its macros, extracts the functions under
contract (extract/), joins them with contracts/*.vrs and has Verus discharge every obligation.
Returns {"failed": [...], "undecided": [...], "coverage": {...}, "assumptions": [...]} for one property,
or None when no contract belongs to it.

A line `//#PROPS P02 P08` in a template gives the properties that the obligations of the following
functions and lemmas belong to.

`prove.py --baseline` records for the unchanged tree which functions are discharged and their shape
(contracts/baseline.json). A failed obligation is reported as a violation only if the same function
was discharged on the unchanged tree and still has the shape the proof was written for (same number
of loops, every hint finds its place) and the solver did not just give up; anything else is undecided.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CON = os.path.join(HERE, "contracts")
EXT = os.path.join(HERE, "extract/target/release/extract")
VERUS = "/opt/veriftools/verus/verus"
BASE = os.path.join(CON, "baseline.json")
REPO = "/repo"


def build_extractor():
    with open(os.path.join(HERE, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "extract/target"), RUSTFLAGS="-Awarnings")
        r = subprocess.run(["cargo", "build", "-q", "--release", "--offline"], cwd=os.path.join(HERE, "extract"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("extractor does not build: " + r.stderr[-2000:])


def templates():
    return sorted(f[:-4] for f in os.listdir(CON) if f.endswith(".vrs") and not open(os.path.join(CON, f)).read().startswith("//! stub"))


def props_of(name):
    s = open(os.path.join(CON, name + ".vrs")).read()
    return set(p for l in re.findall(r"^\s*//#PROPS (.*)$", s, re.M) for p in l.split())


def variant_of(name):
    s = open(os.path.join(CON, name + ".vrs")).read()
    m = re.search(r"^//#EXPAND (\w+)", s, re.M)
    return m.group(1) if m else "plain"


def inject(dst):
    """the macros that scan single characters become calls of functions with the same body"""
    p = os.path.join(dst, "src/scanner/mod.rs")
    s = open(p).read()
    m = re.search(r"#\[macro_use\]\s*\n\s*mod macros;", s)
    if not m:
        return False
    s = s[: m.end()] + "\nmod vx;\n#[macro_use]\nmod vxm;\n" + s[m.end():]
    open(p, "w").write(s)
    for f in ("vx.rs", "vxm.rs"):
        shutil.copy(os.path.join(CON, "inject", f), os.path.join(dst, "src/scanner", f))
    return True


def expand(work, variant):
    dst = os.path.join(work, "source-" + variant)
    os.makedirs(dst)
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), dst)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"))
    # targets of the package that are not its library stay behind
    for d in ("tests", "benches", "examples"):
        if os.path.isdir(os.path.join(REPO, d)):
            shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d))
    if variant == "vx" and not inject(dst):
        return None, "the place for the outlined macros is gone"
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "target"), RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "+nightly", "rustc", "-q", "--offline", "--lib", "--", "-Zunpretty=expanded"], cwd=dst, env=env, capture_output=True, text=True)
    if r.returncode:
        return None, "macro expansion failed: " + r.stderr[-1500:]
    out = os.path.join(work, "expanded-" + variant + ".rs")
    open(out, "w").write(r.stdout)
    return out, None


class Map:
    """which function, and which properties, a line of the verified file belongs to"""

    def __init__(self, text):
        self.fn, self.props, self.info, self.missing, self.unsup = {}, {}, {}, [], []
        cur, props = None, []
        for i, l in enumerate(text.split("\n"), 1):
            t = l.strip()
            if t.startswith("//#FN "):
                w = t.split()
                cur = w[1]
                self.info[cur] = dict(x.split("=", 1) for x in w[2:])
                self.info[cur]["line"] = i
                self.info[cur]["props"] = list(props)
            elif t.startswith("//#UNSUPPORTED "):
                self.unsup.append(t[15:])
            elif t.startswith("//#MISSING "):
                self.missing.append((t.split()[1], list(props)))
            elif t.startswith("//#END"):
                self.fn[i] = cur
                cur = None
            elif t.startswith("//#PROPS "):
                props = t.split()[1:]
            self.fn[i] = cur
            self.props[i] = props


def run_verus(work, name, expanded, stubs, rlimit, seed=None):
    out = os.path.join(work, name + ".rs")
    cmd = [EXT, expanded, os.path.join(CON, name + ".vrs"), out]
    for s in stubs:
        cmd += ["--stub", s]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return {"fatal": "extraction: " + r.stderr[-800:]}
    text = open(out).read()
    mp = Map(text)
    vc = [VERUS, name + ".rs", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4"]
    rlimit = rlimit or 60
    if rlimit:
        vc += ["--rlimit", str(rlimit)]
    if seed is not None:
        vc += ["--smt-option", f"smt.random_seed={seed}"]
    try:
        r = subprocess.run(vc, cwd=work, capture_output=True, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        return {"fatal": "verus: time limit", "map": mp, "text": text}
    diags = []
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    try:
        js = json.loads(r.stdout)
    except ValueError:
        js = None
    return {"map": mp, "text": text, "diags": diags, "json": js, "rc": r.returncode, "stderr": r.stderr}


def breakdown(js):
    res = {}
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            res[f["function"]] = f
    return res


def verify(work, name, expanded, baseline, rlimit=None):
    """-> dict(functions, failed, undecided, verified, errors, smt_ms, trusted)"""
    stubs = []
    for _ in range(12):
        r = run_verus(work, name, expanded, stubs, rlimit)
        if "fatal" in r:
            return {"fatal": r["fatal"]}
        mp, js = r["map"], r["json"]
        vr = (js or {}).get("verification-results", {})
        # a file that did not get as far as the solver: take out the functions that do not fit
        if js is None or "verified" not in vr or (r["diags"] and not breakdown(js)):
            bad = []
            for d in r["diags"]:
                for s in d["spans"]:
                    f = mp.fn.get(s["line_start"])
                    if f and f not in stubs and f not in bad and s["is_primary"]:
                        bad.append(f)
            if not bad:
                for d in r["diags"]:
                    for s in d["spans"]:
                        f = mp.fn.get(s["line_start"])
                        if f and f not in stubs and f not in bad:
                            bad.append(f)
            if not bad:
                return {"fatal": "does not compile: " + "; ".join(d["message"][:200] for d in r["diags"][:3]) + (r["stderr"][-300:] if not r["diags"] else "")}
            stubs += bad
            continue
        break
    else:
        return {"fatal": "too many functions do not fit"}
    fb = breakdown(js)
    if vr["verified"] + vr["errors"] < len(mp.info) - len(stubs):
        return {"fatal": f"the verifier looked at {vr['verified']} obligations sets only, of {len(mp.info)} functions"}
    failed, undecided = [], []
    for d in r["diags"]:
        # the function whose body is being verified is the one that holds the last span
        where = [s["line_start"] for s in d["spans"]]
        prim = [s["line_start"] for s in d["spans"] if s["is_primary"]]
        # an error about a call or a return names both the contract and the place: the place decides
        cand = [l for s in d["spans"] if not s["is_primary"] or len(where) == 1 for l in [s["line_start"]]] + prim
        fns = [mp.fn.get(l) for l in cand]
        if d["message"].startswith(("precondition", "recommendation")):
            fns = [mp.fn.get(l) for l in prim] + fns
        f = next((x for x in fns if x), None)
        line = (prim or where or [0])[0]
        props = mp.info[f]["props"] if f else mp.props.get(line, [])
        txt = r["text"].split("\n")
        msg = d["message"]
        tags = [t for x in d["spans"] for m in [re.search(r"// \[((?:P\d+ ?)+)\]", txt[x["line_start"] - 1] if x["line_start"] <= len(txt) else "")] if m for t in m.group(1).split()]
        clauses = " ".join(txt[x["line_start"] - 1] for x in d["spans"] if x["line_start"] <= len(txt))
        if "overflow" in msg or "underflow" in msg or "division" in msg or "decreases" in msg or "out of bounds" in msg or "termination" in msg or "requires false" in clauses:
            props = ["P01"]
        elif tags:
            props = sorted(set(tags))
        src = txt[line - 1].strip() if 0 < line <= len(txt) else ""
        rec = {"template": name, "function": f or f"{name}.vrs: {src[:100]}", "message": d["message"], "clause": src[:300], "props": props,
               "verifier": (d.get("rendered") or "")[:3000]}
        soft = "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() or "timeout" in d["message"].lower()
        base = baseline.get(name, {}).get("functions", {}).get(f) if f else None
        if f is None:
            undecided.append(dict(rec, why="not in an extracted function"))
        elif soft:
            undecided.append(dict(rec, why="the solver gave up"))
        elif base is None or not base["ok"]:
            undecided.append(dict(rec, why="not discharged on the unchanged tree either"))
        elif mp.info[f]["loops"] != base["loops"] or mp.info[f]["nospec"] != base["nospec"] or mp.info[f]["lost"]:
            undecided.append(dict(rec, why="the function no longer has the shape the proof was written for"))
        else:
            failed.append(rec)
    for s in stubs:
        undecided.append({"template": name, "function": s, "message": "outside the verifier's reach in this form", "props": mp.info[s]["props"], "why": "does not compile"})
    for s, p in mp.missing:
        undecided.append({"template": name, "function": s, "message": "not found in the source", "props": p, "why": "missing"})
    for f, i in mp.info.items():
        if i.get("unsupported") and f not in stubs:
            undecided.append({"template": name, "function": f, "message": "extraction: " + i["unsupported"], "props": i["props"], "why": "unsupported"})
    bad = set(x["function"] for x in failed + undecided)
    fns = {f: {"loops": i["loops"], "nospec": i["nospec"], "props": i["props"], "ok": f not in bad} for f, i in mp.info.items()}
    smt = js["times-ms"].get("smt", {}).get("smt-run", 0)
    return {"functions": fns, "failed": failed, "undecided": undecided, "verified": vr["verified"], "errors": vr["errors"],
            "smt_ms": smt, "wall_ms": js["times-ms"].get("total", 0), "trusted": trusted(r["text"]), "uses": uses(r["text"]), "breakdown": fb, "text": r["text"], "map": mp}


def trusted(text):
    """every assumption in the verified file, by name"""
    res = []
    lines = text.split("\n")
    infn = False
    for i, l in enumerate(lines):
        if i and lines[i - 1].startswith("//#USES "):
            continue
        t = l.strip()
        if t.startswith("//#FN"):
            infn = True
        if t.startswith("//#END"):
            infn = False
        if "external_body" in t or "assume_specification" in t:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"\b(fn|struct|const|enum|type) (\w+)", lines[k])
                if m:
                    res.append(("function " if m.group(1) == "fn" else m.group(1) + " ") + m.group(2) + (" (in the place of a function of the source)" if infn else ""))
                    break
        m = re.search(r"uninterp spec fn (\w+)", t)
        if m:
            res.append("uninterpreted " + m.group(1))
        if re.search(r"\b(assume|admit)\s*\(", t) and not t.startswith("//"):
            res.append("assume: " + t[:120])
    return sorted(set(res))


def uses(text):
    """contracts of functions of the source that this file relies on, and the template that discharges them"""
    return sorted(set(tuple(l.split()[1:3]) for l in text.split("\n") if l.startswith("//#USES ")))


def run_all(names, tier, keep=None):
    build_extractor()
    baseline = json.load(open(BASE)) if os.path.exists(BASE) else {}
    work = keep or tempfile.mkdtemp(prefix="yary-prove-")
    try:
        exp, err = {}, {}
        for v in sorted(set(variant_of(n) for n in names)):
            exp[v], err[v] = expand(work, v)

        def one(n):
            v = variant_of(n)
            if exp[v] is None:
                return n, {"fatal": err[v]}
            t = time.time()
            r = verify(work, n, exp[v], baseline)
            r["s"] = round(time.time() - t, 1)
            return n, r
        with ThreadPoolExecutor(4) as ex:
            return dict(ex.map(one, names))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def prove(prop, tier):
    names = [n for n in templates() if prop in props_of(n)]
    if not names:
        return None
    res = run_all(names, tier)
    cov = {"obligations": 0, "discharged": 0, "checker_cmd": f"{VERUS} {{template}}.rs --triggers-mode silent (one run per template, on text extracted from /repo in this run)",
           "trusted_base": [], "contracts_relied_on": [], "back_end": "Verus 0.2026.09.13 with Z3", "functions_under_contract": [], "solver_ms": 0, "templates": {}, "undecided": []}
    failed, undecided = [], []
    for n, r in res.items():
        if "fatal" in r:
            undecided.append({"template": n, "function": "(all)", "message": r["fatal"], "why": "template undecided"})
            cov["templates"][n] = {"undecided": r["fatal"][:400]}
            continue
        cov["templates"][n] = {"verified": r["verified"], "errors": r["errors"], "solver_ms": r["smt_ms"], "wall_s": r["s"]}
        cov["obligations"] += r["verified"] + r["errors"]
        cov["discharged"] += r["verified"]
        cov["solver_ms"] += r["smt_ms"]
        mine = [f for f, i in r["functions"].items() if prop in i["props"]]
        cov["functions_under_contract"] += [f for f in mine if r["functions"][f]["ok"]]
        cov["trusted_base"] += [f"{n}: {t}" for t in r["trusted"]]
        here = set(f for m in res.values() if "functions" in m for f, i in m["functions"].items() if i["ok"])
        cov["contracts_relied_on"] += [f"{f} (contract discharged in {t}.vrs" + (", in this run)" if f in here else ", by the checks of its properties)") for f, t in r["uses"]]
        failed += [x for x in r["failed"] if prop in x["props"]]
        undecided += [x for x in r["undecided"] if prop in x["props"]]
    cov["undecided"] = [{k: str(x.get(k, ""))[:300] for k in ("template", "function", "message", "why")} for x in undecided]
    cov["contracts_relied_on"] = sorted(set(cov["contracts_relied_on"]))
    cov["trusted_base"] = sorted(set(cov["trusted_base"])) + ["Verus and Z3", "rustc's macro expansion", "the extractor's rewrites (list in extract/src/rewrite.rs and DESIGN.md)"]
    ass = ["deductive stage: " + t for t in cov["trusted_base"]]
    ass += ["machine integers are exact (Verus checks overflow); usize is 64 bit where a proof needs it"] if False else []
    return {"failed": failed, "undecided": undecided, "coverage": cov, "assumptions": ass}


def main():
    a = sys.argv[1:]
    if "--baseline" in a:
        names = [x for x in a if not x.startswith("-")] or templates()
        old = json.load(open(BASE)) if os.path.exists(BASE) and len([x for x in a if not x.startswith("-")]) else {}
        for n, r in run_all(names, "quick").items():
            if "fatal" in r:
                print(n, "FATAL", r["fatal"]); continue
            old[n] = {"functions": {f: {k: i[k] for k in ("loops", "nospec", "ok")} for f, i in r["functions"].items()}}
            print(n, r["verified"], "verified", r["errors"], "errors", r["s"], "s", [x["function"] for x in r["failed"] + r["undecided"]])
        json.dump(old, open(BASE, "w"), indent=1, sort_keys=True)
        return
    for p in a:
        r = prove(p, "quick")
        if r:
            print(p, {k: v for k, v in r["coverage"].items() if k not in ("functions_under_contract", "trusted_base")})
            for x in r["failed"]:
                print("FAILED", x["function"], x["message"], "|", x["clause"])
            for x in r["undecided"]:
                print("UNDECIDED", x["function"], x["message"], x["why"])


if __name__ == "__main__":
    main()
