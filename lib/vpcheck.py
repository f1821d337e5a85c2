"""One check: Verus units + Kani proofs (deciding), native runs of the same contracts (bounded; counterexample search and replay)."""
import os, sys, json, time, threading, traceback
from concurrent.futures import ThreadPoolExecutor
from vpcommon import *
import vpverus, vpkani, vpnative
from vpregistry import CHECKS

REPLAYS = os.path.join(BUILD, "replay")
KNOWN = os.path.join(VERIF, "known-findings.json")

def known_for(pid):
    try:
        return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []

class Result:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []        # (replay dict, found_input: bool)
        self.undecided = []
        self.notes = []
        self.obl = self.dis = 0
        self.backends = {}
        self.solver_s = 0.0
        self.native = []
        self.verus = {}
        self.kani = {}
        self.known = {}
        self.fail_shape = []

def do_verus(R, units, only={}):
    for un in units:
        t0 = time.time()
        try:
            u = vpverus.Unit(un)
            r = vpverus.run_verus(u)
            changed = vpverus.shapes_changed(u)
            n_ok, n_err = r["verified"], r["errors"]
            info = {"functions": len(u.fns), "names": list(u.fns), "verified": n_ok, "errors": n_err, "rewrites": dict(u.rewrites), "external": list(u.external),
                    "extracted_bytes": u.extracted_bytes, "smt_ms": vpverus.smt_ms(r), "wall_s": round(r["wall"], 2), "shape_changed": changed}
            R.verus[un] = info
            if r["unsupported"]:
                msg = "; ".join("%s: %s" % (x["fn"], x["message"]) for x in r["unsupported"][:4])
                R.undecided.append("verus unit %s: %s" % (un, msg))
            if r["fails"]:
                for x in r["fails"]:
                    if un in only and x["fn"] and not re.search(only[un], x["fn"]):
                        # an obligation of another property that shares the unit
                        R.undecided.append("verus unit %s: %s fails (not an obligation of this property)" % (un, x["fn"]))
                        continue
                    R.fail_shape.append((un, x, bool(changed)))
            if not r["fails"] and not r["unsupported"]:
                if n_err or not r["success"] or not n_ok:
                    R.undecided.append("verus unit %s: no verdict: %s" % (un, r["raw"][-400:]))
                else:
                    # vacuity: with `assert(false)` at the start of every function, every function has to fail
                    for sm in (1, 2) if TIER == "thorough" else (1,):
                        u2 = vpverus.Unit(un)
                        s = vpverus.run_verus(u2, smoke=sm)
                        bad = sorted(set(u2.smoke_expected()) - {x["fn"] for x in s["fails"]}) if sm == 1 else []
                        info["vacuous" if sm == 1 else "vacuous_loops"] = bad
                        if bad:
                            R.undecided.append("verus unit %s: vacuous contracts: %s" % (un, bad))
            R.obl += n_ok + n_err; R.dis += n_ok
            R.backends["verus/z3"] = R.backends.get("verus/z3", 0) + n_ok
            R.solver_s += (info["smt_ms"] or 0) / 1000.0
        except Undecided as e:
            R.undecided.append("verus unit %s: %s" % (un, str(e)[:600]))
        except Exception as e:
            R.undecided.append("verus unit %s: internal: %s" % (un, traceback.format_exc()[-600:]))

def do_kani(R, feature, spec):
    names = [n for n, _ in vpkani.declared(feature)]
    if TIER == "quick":
        names = [n for n in names if not re.match(r"kb?t_", n)]
    if not names:
        return
    try:
        t = 480 if TIER == "quick" else 3000
        res, dt, out = vpkani.prove(feature, names, jobs=spec.get("kani_jobs", 6), timeout=t, per_harness=spec.get("kani_timeout", 200 if TIER == "quick" else 1500))
        R.kani_wall = dt
        for n, r in res.items():
            bounded = n.startswith("kb")
            R.kani[n] = {k: r[k] for k in ("status", "checks", "time") if k in r}
            R.kani[n]["bounded"] = bounded
            R.solver_s += r.get("time", 0)
            if r["status"] == "success":
                if r.get("cover") and r["cover"][0] == 0:
                    R.undecided.append("kani %s is vacuous (no cover property reachable)" % n)
                    R.kani[n]["status"] = "vacuous"
                    continue
                if not bounded:
                    R.obl += r["checks"]; R.dis += r["checks"]
                    R.backends["kani/cbmc"] = R.backends.get("kani/cbmc", 0) + r["checks"]
            elif r["status"] == "failure":
                if not bounded:
                    R.obl += r["checks"]; R.dis += r["checks"] - r.get("nfailed", 1)
                R.kani_fail.append((n, r))
            else:
                R.undecided.append("kani %s: %s" % (n, r.get("why")))
    except Undecided as e:
        R.undecided.append(str(e)[:1500])
    except Exception:
        R.undecided.append("kani: internal: " + traceback.format_exc()[-600:])

def do_native(R, feature, spec):
    try:
        exe = vpnative.build(feature)
        R.native_exe = exe
        if feature in vpnative.dropped:
            R.undecided.append("harness files left out, they do not compile with this tree: %s: %s" % vpnative.dropped[feature])
        todo = []
        for p, tgt, fts, mod, cfg in harness_files():
            if feature in fts:
                todo += vpnative.list_harnesses(exe, mod)
        ms = spec.get("native_ms", 4000) if TIER == "quick" else spec.get("native_ms_thorough", 120000)
        kn = [k["match"] for k in known_for(R.pid)]
        def one(t):
            path, name = t
            try:
                return name, path, vpnative.search(exe, path, name, ms, SEED, kn)
            except Undecided as e:
                return name, path, e
        with ThreadPoolExecutor(spec.get("native_jobs", 6)) as ex:
            for name, path, r in ex.map(one, todo):
                if isinstance(r, Exception):
                    R.undecided.append(str(r)[:600]); continue
                R.native.append(r)
                for k, v in r.get("known", {}).items():
                    R.known[k] = R.known.get(k, 0) + v
                if "fail" in r:
                    R.viol.append(({"kind": "native", "feature": feature, "harness": name, "input": "entropy:" + r["fail"]["input"], "message": r["fail"]["message"],
                                    "case": r["fail"]["notes"], "crash": r["fail"].get("crash", False), "found_in": "bounded search, seed %d" % SEED}, True))
    except Undecided as e:
        R.undecided.append(str(e)[:3000])
    except Exception:
        R.undecided.append("native: internal: " + traceback.format_exc()[-600:])

def native_name(n):
    return "n_" + re.sub(r"^kb?t?_", "", n)

def decide_kani_failures(R, feature):
    """replay the solver's values on the real code"""
    for n, r in R.kani_fail:
        rep = {"kind": "kani", "feature": feature, "harness": n, "obligations": r["failed"][:10], "verifier_output": r.get("out", "")}
        found = False
        try:
            exe = vpnative.build(feature)
            nat = srch = None
            for p, tgt, fts, mod, cfg in harness_files():
                if feature in fts:
                    hs = vpnative.list_harnesses(exe, mod)
                    reps = vpnative.list_replays(exe, mod)
                    if n in reps:
                        nat = (reps[n], n)
                    for path, name in hs:
                        if native_name(n) == name:
                            nat = nat or (path, name)
                        if native_name(n).startswith(name) and (srch is None or len(name) > len(srch[1])):
                            srch = (path, name)
            vals = vpkani.playback(feature, n)[0] if nat else []
            rep["concrete_values"] = vals
            for v in vals:
                rc, res, out, _ = vpnative.run_one(exe, nat[0], nat[1], 1000, SEED, replay="playback:" + v, timeout=60)
                if res is None or res["status"] == "fail":
                    rep.update({"harness": nat[1], "input": "playback:" + v, "message": (res or {}).get("message", "process died: " + out[-300:]), "case": (res or {}).get("notes", [])})
                    found = True
                    break
            if not found and not any(f for _, f in R.viol) and srch:
                res = vpnative.search(exe, srch[0], srch[1], 15000, SEED + 99, [k["match"] for k in known_for(R.pid)])
                if "fail" in res:
                    rep.update({"harness": srch[1], "input": "entropy:" + res["fail"]["input"], "message": res["fail"]["message"], "case": res["fail"]["notes"]})
                    found = True
        except Undecided as e:
            rep["replay_problem"] = str(e)[:500]
        kn = [k for k in known_for(R.pid) if k["match"] in (rep.get("message") or "") or k.get("kani") == n]
        if kn:
            R.known[kn[0]["match"]] = R.known.get(kn[0]["match"], 0) + 1
            continue
        if not found and any(f for _, f in R.viol):
            # the bounded layer already has an input: report the obligation with it
            for v, f in R.viol:
                v.setdefault("failed_obligations", []).append({"kani": n, "obligations": r["failed"][:5]})
            continue
        R.viol.append((rep, found))

def main(pid):
    spec = CHECKS[pid]
    t0 = time.time()
    R = Result(pid)
    R.kani_fail = []; R.kani_wall = 0; R.native_exe = None
    feature = spec.get("feature", pid.lower())
    lockfh, missing = sync_mirror()
    if missing:
        R.undecided.append("lost anchors (files): %s" % missing)
    th = []
    def spawn(f, *a):
        t = threading.Thread(target=f, args=a); t.start(); th.append(t)
    if spec.get("verus"):
        spawn(do_verus, R, spec["verus"], spec.get("verus_only", {}))
    spawn(do_native, R, feature, spec)
    if spec.get("kani", True):
        spawn(do_kani, R, feature, spec)
    for t in th:
        t.join()
    decide_kani_failures(R, feature)
    # a failed Verus obligation: the bounded layer is the source of concrete inputs
    if R.fail_shape:
        have_input = any(f for _, f in R.viol)
        if not have_input and R.native_exe:
            for p, tgt, fts, mod, cfg in harness_files():
                if feature in fts:
                    for path, name in vpnative.list_harnesses(R.native_exe, mod):
                        try:
                            r = vpnative.search(R.native_exe, path, name, 12000 if TIER == "quick" else 120000, SEED + 77, [k["match"] for k in known_for(pid)])
                        except Undecided:
                            continue
                        if "fail" in r:
                            R.viol.append(({"kind": "native", "feature": feature, "harness": name, "input": "entropy:" + r["fail"]["input"], "message": r["fail"]["message"],
                                            "case": r["fail"]["notes"], "crash": r["fail"].get("crash", False), "found_in": "search after a failed proof obligation"}, True))
                            have_input = True
                            break
                if have_input:
                    break
        obl = [{"unit": un, "function": x["fn"], "obligation": x["message"], "where": x["lines"], "verifier_output": x["rendered"][:1500]} for un, x, ch in R.fail_shape]
        if have_input:
            for rep, f in R.viol:
                rep["failed_obligations"] = obl[:6]
        else:
            firm = [o for o, (un, x, ch) in zip(obl, R.fail_shape) if not ch]
            if firm:
                R.viol.append(({"kind": "verus", "failed_obligations": firm[:6]}, False))
            else:
                R.undecided.append("verus: obligations fail on restructured functions, and no input violates the property: " + "; ".join("%s: %s" % (o["function"], o["obligation"]) for o in obl[:4]))
    return report(R, spec, feature, t0)

def report(R, spec, feature, t0):
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    lines = []
    # one line per violation, concrete inputs first
    for i, (rep, found) in enumerate(sorted(R.viol, key=lambda v: not v[1])):
        rep["property"] = R.pid
        p = os.path.join(REPLAYS, "%s-%d.json" % (R.pid, i))
        open(p, "w").write(json.dumps(rep, indent=1))
        lines.append("VIOLATION property=%s replay=%s%s" % (R.pid, p, "" if found else " no-failing-input-found"))
        log((rep.get("message") or str(rep.get("obligations") or rep.get("failed_obligations")))[:600])
        log("   case:", str(rep.get("case"))[:600])
        if found and i >= 2:
            break
    kf = known_for(R.pid)
    for k in kf:
        lines.append("KNOWN-FINDING: property=%s %s" % (R.pid, k["what"]))
    level = spec["level"]
    ev = sum(r["evaluations"] for r in R.native); dn = sum(r["distinct_nontrivial"] for r in R.native)
    complete = not R.undecided and R.obl == R.dis and R.obl > 0
    if level == "proof" and not complete:
        level = "exploration"   # this run did not discharge everything: it does not count as a proof
    if level != "proof" and R.obl == 0 and not R.native:
        level = "other"
    cov = {
        "obligations": R.obl, "discharged": R.dis, "by_backend": R.backends, "solver_s": round(R.solver_s, 2),
        "checker_cmd": "./check %s" % R.pid,
        "trusted_base": spec["trusted"] + ["%s: %s" % tuple(x) if not isinstance(x, str) else x for v in R.verus.values() for x in v["external"]],
        "functions_under_contract": spec.get("functions", []),
        "verus_units": R.verus, "kani_harnesses": R.kani,
        "bounded_stand_ins": [{"harness": r["harness"], "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "discarded": r["discarded"], "ms": r.get("ms")} for r in R.native],
        "evaluations": ev, "distinct_nontrivial": dn,
        "rule": "inputs are decoded from random / mutated byte strings by the harness generators (boundary-biased integers, grammar-shaped texts); a case counts as non-trivial when the harness reached the property's conclusion on it, and as distinct by the bytes it consumed",
        "samples": [s for r in R.native for s in r["samples"][:2]][:8] or ["(no sample notes in this run)"],
        "undecided": R.undecided,
        "explanation": spec.get("explanation", ""),
    }
    nv = len([1 for l in lines if l.startswith("VIOLATION")])
    e = {"property": R.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": nv}
    open(os.path.join(VERIF, "evidence", R.pid + ".json"), "w").write(json.dumps(e, indent=1) + "\n")
    for u in R.undecided:
        log("UNDECIDED:", u[:800])
    log("%s: obligations %d/%d, bounded evaluations %d, wall %.1fs" % (R.pid, R.dis, R.obl, ev, time.time() - t0))
    for l in lines:
        print(l, flush=True)
    if nv:
        return 1
    if not R.native and R.undecided and R.dis == 0:
        log("nothing could be decided"); return 2
    print("OK property=%s level=%s obligations=%d/%d bounded_evaluations=%d%s" % (R.pid, level, R.dis, R.obl, ev, " undecided=%d" % len(R.undecided) if R.undecided else ""))
    return 0

def replay(path):
    rep = json.load(open(path))
    if "input" not in rep:
        print(json.dumps(rep, indent=1)); print("no concrete input: re-run ./check %s to redo the proof" % rep["property"]); return 0
    sync_mirror()
    exe = vpnative.build(rep["feature"])
    for p, tgt, fts, mod, cfg in harness_files():
        if rep["feature"] in fts:
            for pth, name in vpnative.list_harnesses(exe, mod) + [(a, b) for b, a in vpnative.list_replays(exe, mod).items()]:
                if name == rep["harness"]:
                    rc, res, out, _ = vpnative.run_one(exe, pth, name, 1000, SEED, replay=rep["input"], timeout=120)
                    if res is None:
                        print("process died (status %s): %s" % (rc, out[-500:])); return 1
                    print(json.dumps(res, indent=1))
                    return 1 if res["status"] == "fail" else 0
    print("harness not found"); return 2
