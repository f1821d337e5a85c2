"""Kani engine: harnesses attached in place to the real source files; every check is discharged by CBMC/SAT."""
import os, re, time, json
from vpcommon import *

FLAGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options"]
_warm = set()

def kenv():
    e = native_libs_env()
    e.update({"CARGO_TARGET_DIR": os.path.join(BUILD, "target-kani"), "CARGO_PROFILE_DEV_OPT_LEVEL": "0", "CARGO_PROFILE_DEV_DEBUG": "true"})
    return e

def declared(feature):
    """[(harness name, module)] of the Kani proofs of this feature; names starting with kb_ are bounded, k_ are complete"""
    out = []
    for p, tgt, fts, mod, cfg in harness_files():
        if feature in fts and "kani" in cfg:
            s = open(p).read()
            s = re.sub(r"(?s)/\*.*?\*/", "", s)
            gates = [(m.start(), re.findall(r"vp_(\w+)", m.group(0))) for m in re.finditer(r"#\[cfg\([^\n]*kani[^\n]*\)\]\s*(?:pub\s+)?mod\s", s)]
            for m in re.finditer(r"(?:#\[kani::proof[^\]]*\](?:\s*#\[[^\]]*\])*\s*(?:pub\s+)?fn\s+|vp_kani!\()(kb?t?_\w+)|(?<=\w )(kb?t?_\w+)(?= [\w. ]+;)", s):
                g = [x for x in gates if x[0] < m.start()]
                if g and g[-1][1] and feature not in g[-1][1]:
                    continue
                own = re.search(r'#\[cfg\(feature = "vp_(\w+)"\)\]\s*$', s[:m.start()])
                if own and own.group(1) != feature:
                    continue
                out.append((m.group(1) or m.group(2), mod))
    return out

UNDECIDED = ("unwinding assertion", "is not currently supported", "unsupported", "recursion unwinding", "Unsupported")

dropped = {}

def prove(feature, names, jobs=6, timeout=600, per_harness=200):
    """returns {name: dict(status=success|failure|undecided, checks, time, failed=[...])}"""
    drop = []
    while True:
        mods = dict(declared(feature))
        left = [n for n in names if mods[n] not in drop]
        if not left:
            raise Undecided("no Kani harness of %s compiles with this tree: %s" % (feature, why))
        try:
            res, dt, out = prove_with(feature, left, drop, jobs, timeout, per_harness)
            dropped[feature] = list(drop)
            for n in names:
                if n not in res:
                    res[n] = {"status": "undecided", "why": "its harness file does not compile with this tree", "checks": 0, "time": 0.0, "failed": []}
            return res, dt, out
        except Undecided as e:
            why = str(e)
            bad = [m for m in harnesses_to_blame(why) if m not in drop]
            if not bad:
                raise
            drop += bad

def prove_with(feature, names, drop, jobs, timeout, per_harness):
    base = ["cargo", "kani", "-p", "skyd", "--features", ",".join(["vp_" + feature] + ["vpdrop_" + m for m in drop])] + FLAGS
    cmd = base + ["--output-format", "terse", "-j", str(jobs), "--harness-timeout", "%ds" % per_harness]
    mods = {}
    for n, m in declared(feature):
        mods[n] = m
    for h in names:
        cmd += ["--harness", mods[h] + "::k::" + h]
    rc, out, dt = run(cmd, timeout=timeout, cwd=WS, extra_env=kenv())
    if "Checking harness" not in out:
        errs = re.findall(r"(?ms)^error.*?(?=^warning|^error|\Z)", out)
        raise Undecided("kani code generation failed (rc %s): %s" % (rc, "\n".join(errs)[:60000] or out[-2000:]))
    res = {n: {"status": "undecided", "why": "no result (timeout)", "checks": 0, "time": 0.0, "failed": []} for n in names}
    cur = {}
    # blocks start with "Thread N:"
    for blk in re.split(r"(?m)^(?=Thread \d+: )", out):
        m = re.match(r"Thread (\d+): Checking harness (\S+?)\.\.\.", blk)
        if m:
            cur[m.group(1)] = m.group(2).split("::")[-1]
            continue
        m = re.match(r"Thread (\d+): ", blk)
        if not m or m.group(1) not in cur:
            continue
        n = cur[m.group(1)]
        if n not in res:
            continue
        r = res[n]
        c = re.search(r"\*\* (\d+) of (\d+) failed(?: \(([^)]*)\))?", blk)
        if c:
            r["checks"] = int(c.group(2)); r["nfailed"] = int(c.group(1))
            u = re.search(r"(\d+) unreachable", c.group(3) or "")
            r["unreachable"] = int(u.group(1)) if u else 0
        cv = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", blk)
        if cv:
            r["cover"] = (int(cv.group(1)), int(cv.group(2)))
        t = re.search(r"Verification Time: ([\d.]+)s", blk)
        if t:
            r["time"] = float(t.group(1))
        if "VERIFICATION:- SUCCESSFUL" in blk:
            r["status"] = "success"; r.pop("why", None)
        elif "VERIFICATION:- FAILED" in blk:
            f = re.findall(r"Failed Checks: (.*)", blk)
            r["failed"] = f
            if "timed out" in blk or not f:
                r["why"] = "solver timeout or no failed check reported"
            elif any(any(u in x for u in UNDECIDED) for x in f):
                # an incomplete unwinding invalidates neither a failed assertion nor proves it: only real failures count
                real = [x for x in f if not any(u in x for u in UNDECIDED)]
                if real and not any("unwinding" in x for x in f):
                    r["status"] = "failure"; r["failed"] = real
                elif real:
                    r["status"] = "failure"; r["failed"] = real
                else:
                    r["why"] = "; ".join(f)
            else:
                r["status"] = "failure"
            r["out"] = blk[-3000:]
    return res, dt, out

def playback(feature, name, timeout=300, per_harness=200):
    """concrete values of a failing harness, as the byte string the native Gen replays"""
    mods = dict(declared(feature))
    cmd = ["cargo", "kani", "-p", "skyd", "--features", ",".join(["vp_" + feature] + ["vpdrop_" + m for m in dropped.get(feature, [])])] + FLAGS + ["-Z", "concrete-playback", "--concrete-playback=print",
           "--harness-timeout", "%ds" % per_harness, "--harness", mods[name] + "::k::" + name]
    rc, out, dt = run(cmd, timeout=timeout, cwd=WS, extra_env=kenv())
    tests = re.findall(r"(?s)let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out)
    r = []
    for t in tests:
        b = bytearray()
        for v in re.findall(r"(?m)^\s*vec!\[([\d, ]*)\]", t):
            b += bytes(int(x) for x in v.replace(" ", "").split(",") if x)
        r.append(b.hex())
    return r, out
