"""Proof layer + concrete layer + verdict + evidence for one property."""
import argparse, importlib.util, json, os, re, shutil, subprocess, sys, time, traceback
import extract

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBLIGATION = re.compile(r"(invariant not satisfied|precondition not satisfied|postcondition not satisfied|assertion failed|possible arithmetic|possible division by zero|possible bit ?shift|decreases not satisfied|unable to prove|assertion failure|requires not satisfied|might not|cannot show|not satisfied)")
RESOURCE = re.compile(r"(rlimit|resource limit|timed out|timeout)", re.I)
NOTE = re.compile(r"(not all errors may have been reported|aborting due to|recommendation)")

def verus(path, extra=(), timeout=300):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "4", "--error-format=json", *extra]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(status="undecided", why="verifier timed out", verified=0, errors=[], smt_ms=0, wall=time.time() - t, cmd=" ".join(cmd))
    errs = []
    for ln in p.stderr.splitlines():
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") == "error":
            errs.append(d)
    try:
        j = json.loads(p.stdout)
    except ValueError:
        j = {}
    r = j.get("verification-results", {})
    tm = j.get("times-ms", {})
    smt = (tm.get("smt") or {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
    res = dict(verified=r.get("verified", 0), nerr=r.get("errors", 0), smt_ms=smt, wall=time.time() - t, cmd=" ".join(cmd), errors=errs, raw=p.stderr[-20000:])
    real = [e for e in errs if not NOTE.search(e["message"])]
    if p.returncode == 0 and r.get("success") and not real:
        res["status"] = "ok"
    elif r.get("encountered-vir-error") or not r or not r.get("errors") and not r.get("verified"):
        res["status"], res["why"] = "undecided", "the verifier could not process the extracted text: " + (real[0]["message"] if real else p.stderr[-300:])
    elif any(RESOURCE.search(e["message"]) for e in real):
        res["status"], res["why"] = "undecided", "solver resource limit"
    elif real and all(OBLIGATION.search(e["message"]) for e in real):
        res["status"] = "failed"
    else:
        res["status"], res["why"] = "undecided", "verifier error: " + "; ".join(e["message"] for e in real)[:400]
    res["failed"] = real
    return res

def locate(unit, err):
    """(function, obligation text) of a failed obligation."""
    for sp in err["spans"]:
        for (a, b, key, file, line) in unit.spans:
            if a <= sp["line_start"] <= b:
                return key, f"src/{file} {key}"
    return None, "lemma"

class Proof:
    def __init__(self, prop, units, tier, log):
        self.prop, self.units, self.tier, self.log = prop, units, tier, log
        self.status = "ok"         # ok | failed | undecided
        self.why, self.failed = [], []
        self.obligations = self.discharged = 0
        self.fns, self.rules, self.opaqued, self.inlined, self.cmds, self.flags, self.trusted = [], {}, [], [], [], [], []
        self.smt_ms = 0
        self.vacuity = []
        self.detail = {}

    def worse(self, s):
        o = ["ok", "undecided", "failed"]
        if o.index(s) > o.index(self.status):
            self.status = s

    def run(self):
        d = os.path.join(VERIF, "build", self.prop)
        os.makedirs(d, exist_ok=True)
        for name in self.units:
            t0 = time.time()
            u = extract.Unit(name, self.prop)
            try:
                src = u.run()
            except extract.Lost as e:
                self.worse("undecided"); self.why.append(f"unit {name}: lost anchor: {e}")
                continue
            except Exception as e:    # text the extractor does not understand
                self.worse("undecided"); self.why.append(f"unit {name}: extraction failed: {e!r}")
                self.log(traceback.format_exc())
                continue
            path = os.path.join(d, name + ".rs")
            open(path, "w").write(src)
            r = verus(path)
            if r["status"] == "undecided" and "could not process" in r["why"]:
                # once more with the plain option fields that the functions name and the unit does not list
                u2 = extract.Unit(name, self.prop, ext=True)
                src2 = u2.run()
                if u2.extra:
                    open(path, "w").write(src2)
                    r2 = verus(path)
                    if r2["status"] in ("ok", "failed"):
                        u, src, r = u2, src2, r2
            self.fns += [f"{k} (src/{f})" for (_, _, k, f, _) in u.spans]
            for k, v in u.rules.items():
                self.rules[k] = self.rules.get(k, 0) + v
            self.opaqued += u.opaqued
            self.inlined += u.inlined
            self.flags += u.flags
            self.trusted += trusted(src, u)
            self.cmds.append(r["cmd"])
            self.smt_ms += r["smt_ms"]
            self.obligations += r["verified"] + r.get("nerr", 0)
            self.discharged += r["verified"]
            self.detail[name] = dict(verified=r["verified"], errors=r.get("nerr", 0), smt_ms=r["smt_ms"], wall_s=round(r["wall"], 2))
            if r["status"] == "undecided":
                self.worse("undecided"); self.why.append(f"unit {name}: {r['why']}")
            elif r["status"] == "failed":
                bad = []
                for e in r["failed"]:
                    key, where = locate(u, e)
                    bad.append(dict(unit=name, function=where, obligation=e["message"], text=e.get("rendered", "")))
                far = [b["function"] for b in bad if u.extra and not any(k in b["function"] and u.names_extra(k) for k in {x[2] for x in u.spans})]
                if far:
                    self.worse("undecided")
                    self.why.append(f"unit {name}: read with the further fields {u.extra}, obligations of functions that do not use them are not discharged: {far}")
                elif u.flags or u.inlined:
                    # new loops/closures/helpers without contracts: a failed obligation says nothing about behaviour
                    self.worse("undecided")
                    self.why.append(f"unit {name}: obligations not discharged, but the code has parts without a contract ({'; '.join(u.flags + u.inlined)}): " + "; ".join(b["function"] + ": " + b["obligation"] for b in bad))
                else:
                    self.worse("failed")
                    self.failed += bad
            elif r["verified"] == 0:
                self.worse("undecided"); self.why.append(f"unit {name}: no obligations")
            if r["status"] == "ok":
                self.vac(name, d, u)
            if self.tier == "thorough" and r["status"] == "ok":
                for seed in (1, 2, 3):
                    rs = verus(path, ["--smt-option", f"smt.random_seed={seed}"])
                    self.detail[name][f"seed{seed}"] = rs["status"]
        self.log(f"proof: {self.status} obligations={self.obligations} discharged={self.discharged} smt={self.smt_ms} ms {self.why}")
        return self

    def vac(self, name, d, u0):
        """assert(false) at every function entry must fail: preconditions and assumptions are satisfiable."""
        u = extract.Unit(name, self.prop, vacuity=True, ext=u0.ext)
        src = u.run()
        path = os.path.join(d, name + "_vac.rs")
        open(path, "w").write(src)
        r = verus(path)
        failing = set()
        for e in r["errors"]:
            for sp in e["spans"]:
                for (a, b, key, file, line) in u.spans:
                    if a <= sp["line_start"] <= b:
                        failing.add((a, key))
        missing = [key for (a, b, key, f, l) in u.spans if (a, key) not in failing]
        self.vacuity.append(dict(unit=name, functions=len(u.spans), refuted=len(failing), missing=missing))
        if missing:
            self.worse("undecided"); self.why.append(f"unit {name}: assumptions look inconsistent at {missing}")

def trusted(src, u):
    out, lines = [], src.split("\n")
    for i, ln in enumerate(lines):
        if "external_body" in ln or "assume_specification" in ln or re.search(r"\baxiom\b|\badmit\(\)|\bassume\(", ln):
            nxt = " ".join(x.strip() for x in lines[i:i + 3])
            m = re.search(r"(fn|struct|enum)\s+(\w+)", nxt)
            if m:
                k = next((a for a in u.assumed if a.split(":")[0].split("::")[-1] == m.group(2) or a.startswith(m.group(2) + ":")), None)
                out.append(f"{u.name}: assumed {m.group(1)} {m.group(2)}" + (f" ({k})" if k else ""))
    return out

def load_check(prop):
    path = os.path.join(VERIF, "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location(prop.lower(), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

def known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(path)) if k["property"] == prop and k["status"] == "known"] if os.path.exists(path) else []

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--proof-only", action="store_true")
    ap.add_argument("--concrete-only", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    def log(*x):
        print(*x, file=sys.stderr, flush=True)
    chk = load_check(a.prop)
    import rt
    proof = Proof(a.prop, chk.UNITS, a.tier, log)
    if not a.concrete_only:
        proof.run()
    ctx = rt.Ctx(a.prop, a.tier, seed, log)
    crashed = None
    if not a.proof_only:
        try:
            chk.concrete(ctx)
        except rt.Inconclusive as e:
            ctx.notes.append(f"bounded part not run: {e}")
        except Exception as e:
            crashed = traceback.format_exc()
        finally:
            ctx.close()
    # ---- verdict
    rc = 0
    kf = known(a.prop)
    new, old = [], {}
    for f in ctx.failures:
        k = next((k for k in kf if k["key"] == f["key"]), None)
        if k:
            old.setdefault(k["key"], k)
        else:
            new.append(f)
    for k in kf:
        if k["key"] in old or k.get("always"):
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    d = os.path.join(VERIF, "evidence", "replay")
    rp = os.path.join(d, a.prop + ".json")
    if os.path.exists(rp):
        os.remove(rp)
    if new or proof.status == "failed":
        os.makedirs(d, exist_ok=True)
        json.dump(dict(property=a.prop, failing_inputs=new[:10], failed_obligations=proof.failed, verifier_output=[b["text"] for b in proof.failed],
                       rerun=f"python3 /verif/bin/check.py {a.prop} --tier {a.tier}", seed=seed), open(rp, "w"), indent=1, default=str)
        for f in new[:5]:
            log("FAIL:", f["what"])
        for b in proof.failed[:5]:
            log("OBLIGATION:", b["function"], b["obligation"], "\n", b["text"])
        print(f"VIOLATION property={a.prop} replay={rp}" + ("" if new else " no-failing-input-found"))
        rc = 1
    elif crashed:
        log(crashed)
        ctx.notes.append("concrete layer crashed: " + crashed[-500:])
        rc = 2
    cov = dict(
        obligations=proof.obligations, discharged=proof.discharged,
        checker_cmd=" ; ".join(proof.cmds) or "verus (not reached)",
        trusted_base=sorted(set(proof.trusted)) + getattr(chk, "TRUSTED", []),
        proof_status=proof.status, proof_notes=proof.why,
        functions_under_contract=proof.fns, units=proof.detail,
        rewrites={k: dict(count=v, rule=extract.RULES[k]) for k, v in sorted(proof.rules.items())},
        opaque_expressions=[f"{k}: {t}" for k, t in proof.opaqued], inlined_helpers=proof.inlined, uncontracted=proof.flags,
        backend="Verus 0.2026.09.13 with Z3", solver_ms=proof.smt_ms, vacuity=proof.vacuity,
        bounded=dict(label="bounded stand-in and replay layer, never counted as proved", evaluations=ctx.evals, distinct_nontrivial=len(ctx.distinct),
                     rule=getattr(chk, "RULE", ""), samples=ctx.samples[:5], notes=ctx.notes, hooked=ctx.hooked))
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="proof" if chk.UNITS else "exploration", coverage=cov,
              assumptions=getattr(chk, "ASSUMPTIONS", []) + extractor_assumptions(proof), wall_s=round(time.time() - t0, 2), violations=len(new) + len(proof.failed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    log(f"{a.prop} {a.tier}: exit {rc}, proof {proof.status} ({proof.discharged}/{proof.obligations}), bounded evals {ctx.evals} ({len(ctx.distinct)} distinct), {time.time()-t0:.1f}s {ctx.notes}")
    return rc

def extractor_assumptions(p):
    out = ["the extraction rewrites listed under coverage.rewrites preserve behaviour (they are textual and counted)",
           "Verus, its vstd library contracts and Z3 are sound", "usize is 64 bits"]
    return out
