#!/usr/bin/env python3
"""Decides one property on /repo's current tree.   check.py ID | setup | shape

Proof: overlay/<unit>.rs (contracts) + /repo sources --vx--> one Verus file per unit --verus--> obligations.
Replay: engine/ searches the real crates for an input that shows the failure (bounded).
"""
import concurrent.futures as cf, glob, itertools, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
OUT = os.path.join(B, "out")
VX = os.path.join(B, "vx", "debug", "vx")
sys.path.insert(0, V)
from props import PROPS

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
FAILS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
         "possible arithmetic", "possible division by zero", "possible bit shift", "decreases not satisfied",
         "unable to prove", "loop ensures not satisfied", "possible overflow", "index out of bounds")


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, r = p.communicate()
        return None, o, r


def build_vx():
    if os.path.exists(VX):
        newest = max(os.path.getmtime(f) for f in glob.glob(V + "/tools/vx/src/*.rs") + [V + "/tools/vx/Cargo.toml"])
        if os.path.getmtime(VX) >= newest:
            return None
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], timeout=600, cwd=V + "/tools/vx",
                  env={"CARGO_TARGET_DIR": B + "/vx"})
    return None if rc == 0 else "extractor does not build: " + e[-400:]


def build_engine(b):
    loomed = b is not None and b.startswith("loom")
    env = {"CARGO_TARGET_DIR": B + ("/loomed" if loomed else "/engine"), "RUSTFLAGS": "--cfg parcom_verif -Awarnings"}
    cmd = ["cargo", "build", "--offline", "-q"] + (["--bin", b] if b and b != "loom" else ["--bins"])
    rc, o, e = sh(cmd, timeout=500, cwd=V + "/engine" + ("/loomed" if loomed else ""), env=env)
    if rc == 0:
        return None
    return "engine does not build against /repo: " + "\n".join(l for l in e.splitlines() if l.startswith("error"))[:600]


# ------------------------------------------------------------------ proof

def extract(unit, out, roles=None, canary=False):
    cmd = [VX, f"{V}/overlay/{unit}.rs", REPO, out]
    if roles:
        cmd += ["--roles", ",".join(f"{k}={v}" for k, v in roles.items())]
    if canary:
        cmd += ["--canary"]
    rc, o, e = sh(cmd, timeout=120)
    if rc != 0:
        return {"problems": [f"extraction failed: {(e or o)[-300:]}"], "functions": [], "notes": {}, "role_need": {},
                "inlined": [], "suspicious": []}
    return json.loads(o)


def verus(path, rlimit=40, extra=(), timeout=400):
    cmd = ["verus", os.path.basename(path), "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit),
           *extra]
    rc, o, e = sh(cmd, timeout=timeout, cwd=os.path.dirname(path))
    res = {"cmd": " ".join(cmd), "verified": 0, "errors": 0, "failed": [], "undecided": [], "smt_ms": 0, "fns": [],
           "log": ""}
    if rc is None:
        res["undecided"].append("verifier timed out")
        return res
    try:
        d = json.loads(o[o.index("{"):])
    except ValueError:
        d = {}
    vr = d.get("verification-results") or {}
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    t = d.get("times-ms", {}).get("smt", {})
    res["smt_ms"] = t.get("smt-run", 0)
    for m in t.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            res["fns"].append((f["function"], f.get("success"), f.get("time-micros", 0)))
    for l in e.splitlines():
        if not l.startswith("{"):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        lines = [s["line_start"] for s in m["spans"] if s["file_name"].endswith(os.path.basename(path))]
        rec = {"message": m["message"], "lines": lines, "rendered": m["rendered"]}
        res["log"] += m["rendered"]
        if any(m["message"].startswith(x) for x in FAILS):
            res["failed"].append(rec)
        else:
            res["undecided"].append(m["message"].split("\n")[0][:200])
    if vr.get("encountered-vir-error") or not vr or (not vr.get("success") and not res["failed"] and not res["undecided"]):
        res["undecided"].append("the verifier did not accept the extracted text")
    return res


def blame(report, lines):
    """the contracted function whose body an error points into"""
    for l in lines:
        for f in report["functions"]:
            if f["body"] and f["begin"] <= l <= f["end"]:
                return f
    return None


def shape_of(report):
    return {"functions": sorted([f["id"], f["loops"], f["kinds"]] for f in report["functions"]), "inlined": sorted(report["inlined"]), "roles": report.get("role_at", {})}


def prove(unit, shapes):
    """-> dict(status proved|failed|undecided, ...)"""
    t0 = time.time()
    out = f"{OUT}/{unit}.rs"
    rep = extract(unit, out)
    r = {"unit": unit, "functions": [f["id"] for f in rep["functions"] if f["body"]],
         "interfaces": [f["id"] for f in rep["functions"] if not f["body"]],
         "notes": rep["notes"], "inlined": rep["inlined"], "why": [], "failed": [], "cmd": f"verus build/out/{unit}.rs --rlimit 40"}
    if rep["problems"]:
        r.update(status="undecided", why=rep["problems"][:5], verified=0, errors=0, smt_ms=0)
        return r
    tries = [None]
    if rep["role_need"]:
        keys = list(rep["role_need"])
        # (those first that are where the contract's names are in the code it was written for)
        at = shapes.get(unit, {}).get("roles", {})
        order = [sorted(enumerate(dict.fromkeys(rep["role_need"][k])), key=lambda x: (abs(x[0] - at.get(k, 0)), x[0])) for k in keys]
        combos = itertools.islice(itertools.product(*[range(len(o)) for o in order]), 4000)
        combos = sorted((c for c in combos if len({(k.split("#")[0], o[i][1]) for k, o, i in zip(keys, order, c)}) == len(c)), key=sum)
        tries = [{k: o[i][1] for k, o, i in zip(keys, order, c)} for c in combos[:24]]
    best = None
    for roles in tries:
        if roles is not None:
            rep = extract(unit, out, roles)
            if rep["problems"]:
                continue
        v = verus(out, rlimit=40 if TIER == "quick" else 120)
        if best is None or (not v["failed"] and not v["undecided"]):
            best = (rep, v)
        if not v["failed"] and not v["undecided"]:
            break
    if best is None:
        r.update(status="undecided", why=["no assignment of the contract's local variables fits"], verified=0, errors=0, smt_ms=0)
        return r
    rep, v = best
    r.update(verified=v["verified"], errors=v["errors"], smt_ms=v["smt_ms"], log=v["log"][:20000])
    if v["undecided"]:
        r.update(status="undecided", why=v["undecided"][:5])
    elif v["failed"]:
        r["status"] = "failed"
        for f in v["failed"]:
            b = blame(rep, f["lines"])
            r["failed"].append({"function": b["id"] if b else None, "message": f["message"], "rendered": f["rendered"]})
        if rep["suspicious"]:
            r["why"] += rep["suspicious"]
        if len(tries) > 1:
            r["why"].append("ambiguous local variables")
        if all("arithmetic underflow/overflow" in f["message"] for f in r["failed"]):
            r["why"].append("only bounds of machine arithmetic failed (which a new counter does too)")
        if {**shapes.get(unit, {}), "roles": 0} != {**shape_of(rep), "roles": 0}:
            r["why"].append("the functions or loops of the unit are not those the contracts were written for")
    elif v["verified"] == 0:
        r.update(status="undecided", why=["no obligation was generated"])
    else:
        # vacuity: with `assert(false)` at the end of every function, every one of them must fail
        can = f"{OUT}/{unit}_can.rs"
        crep = extract(unit, can, roles=tries[0] if tries[0] is None else roles, canary=True)
        cv = verus(can, rlimit=20, extra=("--multiple-errors", "0"))
        hit = set()
        for f in cv["failed"]:
            b = blame(crep, f["lines"])
            if b:
                hit.add(b["id"])
        want = {f["id"] for f in crep["functions"] if f["body"] and f.get("canary", True)}
        miss = sorted(want - hit)
        r["vacuity_checked"] = len(want) - len(miss)
        if miss or cv["undecided"]:
            r.update(status="undecided", why=[f"vacuity check: {miss[:3]} {cv['undecided'][:2]}"])
        else:
            r["status"] = "proved"
    r["secs"] = round(time.time() - t0, 2)
    return r


def trusted(unit):
    try:
        s = open(f"{OUT}/{unit}.rs").read()
    except OSError:
        return []
    t = []
    for m in re.finditer(r"//\s*TRUSTED:\s*(.*)", s):
        t.append(m.group(1))
    for pat in ("external_body", "assume_specification", "axiom fn", "external_type_specification", "external_trait_specification", "assume(", "admit("):
        n = len(re.findall(re.escape(pat), s))
        if n:
            t.append(f"{unit}: {n} x `{pat}`")
    return t


# ------------------------------------------------------------------ engine

def hints(prop):
    """numbers (above 4) and characters that the property's code names: the engine goes near them"""
    nums, chars = set(), set()
    for f in sorted(glob.glob(f"{REPO}/crates/**/*.rs", recursive=True)):
        if not any(o in f for o in PROPS[prop]["own"]) or "/tests/" in f:
            continue
        t = open(f, errors="replace").read().split("#[cfg(test)]")[0]
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.finditer(r"b?'(\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])'", t):
            c = m[1]
            if c.startswith("\\u"):
                chars.add(int(c[3:-1].replace("_", ""), 16))
            elif c.startswith("\\x"):
                chars.add(int(c[2:], 16))
            elif len(c) == 1:
                chars.add(ord(c))
        for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?:\s*<<\s*([0-9]+))?(?![\w{])", t):
            try:
                n = int(m[1].replace("_", ""), 0) << min(int(m[2] or 0), 70)
            except ValueError:
                continue
            if 4 < n < 1 << 40:
                nums.add(n)
        for k, n in (("8", 255), ("16", 65535)):
            if re.search(r"\b[ui]" + k + r"\s*::\s*(MAX|MIN)|(\bas |:\s*|<|[0-9]_?|Atomic|NonZero)[uiUI]" + k + r"\b", t):
                nums |= {n, n // 2}
    return ",".join(map(str, sorted(nums)[:40])) + ";" + ",".join(map(str, sorted(chars)[:60]))


def engine(b, prop, cases, secs):
    """-> dict(families, failure|None, error|None)"""
    loomed = b.startswith("loom")
    exe = f"{B}/{'loomed' if loomed else 'engine'}/debug/{b}"
    h = {"VERIF_HINTS": hints(prop)}
    if loomed:
        cases = 60 if cases < 200000 else 600
    out, prog = f"{OUT}/{prop}_{b}.json", f"{OUT}/{prop}_{b}.progress"
    for f in (out, prog):
        if os.path.exists(f):
            os.remove(f)
    rc, o, e = sh([exe, "run", prop, out, prog, str(SEED), str(cases), str(secs)], timeout=secs + 60, cwd=OUT, env=h)
    if rc == 0 and os.path.exists(out):
        return {"error": None, **json.load(open(out))}
    # the process hung or died: the progress file names the case
    try:
        fam, seed, case = [x.strip() for x in open(prog).read().split("\n")[0].split("|")]
    except (OSError, ValueError):
        return {"families": {}, "failure": None, "error": f"engine ended with {rc} before its first case"}
    rc2, o2, e2 = sh([exe, "replay", prop, fam, seed, case], timeout=30, cwd=OUT, env=h)
    if loomed and rc2 != 1:
        return {"families": {fam: int(case)}, "failure": None, "error": f"engine ended with {rc} in {fam} case {case}: loom gives no answer"}
    if rc2 == 0:
        # depends on what ran before in the same process (e.g. corrupted heap): not a confirmed input
        return {"families": {fam: int(case)}, "failure": None, "error": f"engine ended with {rc} in {fam}, the case alone passes"}
    what = "does not terminate" if rc2 is None else (o2.strip() if rc2 == 1 else f"crashes (exit {rc2}) {e2[-300:]}")
    return {"families": {fam: int(case)}, "error": None,
            "failure": {"family": fam, "seed": int(seed), "case": int(case), "message": what}}


def known_findings(prop):
    """lines `known: {json}` with property, family, match (a part of the failure's message), what"""
    k = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                d = json.loads(l[6:])
                if d["property"] == prop:
                    k.append(d)
    return k


def check(prop):
    t0 = time.time()
    P = PROPS[prop]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    shapes = json.load(open(V + "/overlay/shape.json")) if os.path.exists(V + "/overlay/shape.json") else {}
    notes = []
    err = build_vx() if P["units"] else None
    with cf.ThreadPoolExecutor(4) as ex:
        fb = [(b, ex.submit(build_engine, b)) for b in P["bins"] if b in P["bins"][:1] or b.startswith("loom")]
        fu = [ex.submit(prove, u, shapes) for u in P["units"]] if not err else []
        proofs = [f.result() for f in fu]
        berr = {b: f.result() for b, f in fb}
    for b in P["bins"]:
        if b not in berr:
            berr[b] = build_engine(b)
    if err:
        proofs = [{"unit": u, "status": "undecided", "why": [err], "functions": [], "interfaces": [], "verified": 0,
                   "errors": 0, "smt_ms": 0, "failed": [], "notes": {}, "inlined": []} for u in P["units"]]
    kani = []
    if P.get("kani"):
        import kanirun
        kani = kanirun.run(P["kani"], REPO, B, TIER)
    proved = all(p["status"] == "proved" for p in proofs)
    # functions whose own obligations fail, in files this property is about
    own = []
    for p in proofs:
        if p["status"] == "failed" and not p["why"]:
            for f in p["failed"]:
                if f["function"] and any(x in f["function"] for x in P["own"]):
                    own.append((p["unit"], f))
    cases, secs = (P.get("cases", 20000), 25) if TIER == "quick" else (P.get("cases", 20000) * 40, 300)
    if own or not proved:
        cases, secs = cases * 6, max(secs, 60)
    eng, failure = {}, None
    for b in P["bins"]:
        if berr[b]:
            eng[b] = {"families": {}, "failure": None, "error": berr[b]}
            continue
        eng[b] = engine(b, prop, cases, secs / len(P["bins"]))
        if eng[b]["failure"] and not failure:
            failure = (b, eng[b]["failure"])
    kfail = [k for k in kani if k["status"] == "failed"]
    viol = []
    rp = f"{V}/evidence/{prop}.replay.txt"
    if failure:
        b, f = failure
        k = [x for x in known_findings(prop) if x.get("family") == f["family"] and x.get("match", "\0") in f["message"]]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
        else:
            with open(rp, "w") as w:
                w.write(f"property {prop}: failing input found on the real code\nfamily {f['family']}\n{f['message']}\n\n"
                        f"replay: cd {V} && VERIF_HINTS='{hints(prop)}' RUSTFLAGS='--cfg parcom_verif' CARGO_TARGET_DIR=build/{'loomed' if b.startswith('loom') else 'engine'} cargo run --offline "
                        f"--manifest-path engine/{'loomed/' if b.startswith('loom') else ''}Cargo.toml --bin {b} -- replay {prop} '{f['family']}' {f['seed']} {f['case']}\n")
                for u, o in own:
                    w.write(f"\nfailed obligation of {o['function']} (unit {u}):\n{o['rendered']}\n")
                for k in kfail:
                    w.write(f"\nKani harness {k['harness']}:\n{k['log'][-3000:]}\n")
            viol.append(f"VIOLATION property={prop} replay={rp}")
    elif kfail:
        k = kfail[0]
        with open(rp, "w") as w:
            w.write(f"property {prop}: Kani harness {k['harness']} fails\n{k['log'][-8000:]}\n")
        viol.append(f"VIOLATION property={prop} replay={rp}" + ("" if k.get("concrete") else " no-failing-input-found"))
    elif own:
        u, o = own[0]
        with open(rp, "w") as w:
            for u, o in own:
                w.write(f"property {prop}: failed obligation of {o['function']} (unit {u}): {o['message']}\n"
                        f"{o['rendered']}\n")
        viol.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    for k in known_findings(prop):
        if not failure:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for p in proofs:
        if p["status"] != "proved":
            notes.append(f"unit {p['unit']} {p['status']}: {'; '.join(map(str, p['why'] or [f['message'] for f in p['failed']]))}"[:600])
    for b in eng:
        if eng[b]["error"]:
            notes.append(f"engine {b}: {eng[b]['error']}")
    for k in kani:
        if k["status"] == "undecided":
            notes.append(f"kani {k['harness']}: undecided {k['log'][-200:]}")
    for n in notes:
        print("note:", n)
    for v in viol:
        print(v)
    evals = sum(sum(e["families"].values()) for e in eng.values())
    obl = sum(p["verified"] + p["errors"] for p in proofs)
    dis = sum(p["verified"] for p in proofs)
    tb = sorted({t for p in proofs for t in trusted(p["unit"])}) + P.get("trusted", []) + [
        "Verus 0.2026.09.13 and Z3; rustc", "tools/vx (extraction; what it changes is listed under extraction_changes)"]
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "; ".join(p.get("cmd", "") for p in proofs) or "none",
        "trusted_base": tb,
        "back_end": "Verus/Z3",
        "functions_under_contract": sorted({f for p in proofs for f in p["functions"]}),
        "interface_contracts_assumed": sorted({f for p in proofs for f in p["interfaces"]}),
        "units": [{k: p.get(k) for k in ("unit", "status", "verified", "errors", "smt_ms", "vacuity_checked", "secs", "why")} for p in proofs],
        "solver_ms": sum(p["smt_ms"] for p in proofs),
        "extraction_changes": {k: sum(p["notes"].get(k, 0) for p in proofs) for k in sorted({k for p in proofs for k in p["notes"]})},
        "inlined_helpers": sorted({i for p in proofs for i in p["inlined"]}),
        "evaluations": evals, "distinct_nontrivial": sum(e.get("distinct", 0) for e in eng.values()),
        "rule": "bounded, not counted as proved: seeded random cases run against the real crates. A case is counted as "
                "distinct and non-trivial when the record of what it exercised (positions, expected results and calls) is "
                "non-empty and differs from every other case's",
        "bounded_families": {b: e["families"] for b, e in eng.items()},
        "samples": [s for e in eng.values() for s in e.get("samples", [])][:6],
        "notes": notes,
    }
    if kani:
        cov["bounded_kani"] = [{k: v for k, v in x.items() if k != "log"} for x in kani]
    level = P["level"]
    if level == "proof" and not (proved and proofs):
        level = "exploration"
        cov["explanation"] = "the proof did not go through on this tree: only the bounded cases were decided"
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(f"{V}/evidence/{prop}.json", "w") as w:
        json.dump(ev, w, indent=1)
    print(f"{prop}: {'VIOLATED' if viol else 'holds'}; {dis}/{obl} obligations discharged, {evals} bounded cases, {ev['wall_s']} s")
    return 1 if viol else 0


def setup():
    e = build_vx()
    if e:
        print(e)
    for b in (None, "loom"):
        e2 = build_engine(b)
        if e2:
            print(e2)
    return 0


def shape():
    build_vx()
    os.makedirs(OUT, exist_ok=True)
    s = {}
    for f in sorted(glob.glob(V + "/overlay/*.rs")):
        u = os.path.basename(f)[:-3]
        s[u] = shape_of(extract(u, f"{OUT}/{u}.rs"))
    json.dump(s, open(V + "/overlay/shape.json", "w"), indent=0, sort_keys=True)
    return 0


if __name__ == "__main__":
    a = sys.argv[1]
    if a == "setup":
        sys.exit(setup())
    if a == "shape":
        sys.exit(shape())
    try:
        rc = check(a)
    except Exception as e:  # an error of the machinery is neither a proof nor a violation
        print("machinery error:", repr(e))
        rc = 0
        try:
            json.dump({"property": a, "tier": TIER, "seed": SEED, "level": "other",
                       "coverage": {"explanation": f"machinery error, nothing decided: {e!r}"}, "wall_s": 0.0, "violations": 0},
                      open(f"{V}/evidence/{a}.json", "w"))
        except OSError:
            pass
    sys.exit(rc)
