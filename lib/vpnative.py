"""Native engine: runs the contract harness bodies on the real (mirrored) crate, searching for / replaying concrete inputs."""
import os, json, re, time, tempfile, shutil
from vpcommon import *

_bins = {}
dropped = {}

def build(feature, timeout=700):
    if feature in _bins:
        return _bins[feature]
    try:
        _bins[feature] = build_with(feature, [], timeout)
    except Undecided as e:
        # harness files that a restructured tree does not compile with any more are left out; the others still decide
        bad = [m for m in harnesses_to_blame(str(e))]
        if not bad:
            raise
        for _ in range(3):
            try:
                _bins[feature] = build_with(feature, bad, timeout)
                dropped[feature] = (bad, str(e)[:800])
                break
            except Undecided as e2:
                more = [m for m in harnesses_to_blame(str(e2)) if m not in bad]
                if not more:
                    raise
                bad += more
        else:
            raise
    return _bins[feature]

def build_with(feature, drop, timeout):
    td = os.path.join(BUILD, "target-native")
    cmd = ["cargo", "test", "--offline", "--workspace", "--bin", "skyd", "--features", ",".join(["skyd/vp_" + feature] + ["skyd/vpdrop_" + m for m in drop]), "--no-run", "--message-format=json"]
    seed_target(td)
    rc, out, dt = run(cmd, timeout=timeout, cwd=WS, extra_env={"CARGO_TARGET_DIR": td})
    exe = None
    errs = []
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and m.get("executable") and m.get("target", {}).get("name") == "skyd" and m.get("profile", {}).get("test"):
                exe = m["executable"]
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"].get("rendered", ""))
    if rc != 0 or not exe:
        raise Undecided("native build failed (rc %s): %s" % (rc, "\n".join(errs)[:60000] or out[-3000:]))
    log("native build %s: %.1fs" % (feature, dt))
    return exe

def list_harnesses(exe, mod):
    rc, out, _ = run([exe, "--list", "--format=terse"], timeout=60)
    r = []
    for l in out.splitlines():
        m = re.match(r"(\S+::" + re.escape(mod) + r"::(\w+)): test$", l)
        if m:
            r.append((m.group(1), m.group(2)))
    return r

def list_replays(exe, mod):
    """native twins of the Kani proofs: replay only"""
    rc, out, _ = run([exe, "--list", "--format=terse"], timeout=60)
    return {m.group(2): m.group(1) for m in re.finditer(r"(?m)^(\S+::" + re.escape(mod) + r"::k::(\w+)): test$", out)}

def run_one(exe, path, name, ms, seed, known=(), replay=None, trace=False, timeout=None, extra=None):
    d = tempfile.mkdtemp(prefix="vpn")
    try:
        ev = {"VP_OUT": d, "VP_MS": str(ms), "VP_SEED": str(seed), "VP_KNOWN": "\x01".join(known), "VP_ONLY": name}
        if replay:
            ev["VP_REPLAY"] = replay
        if trace:
            ev["VP_TRACE"] = "1"
        if extra:
            ev.update(extra)
        wd = os.path.join(d, "cwd"); os.makedirs(wd)
        cmd = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % (12 * 1024 * 1024), "_", exe, "--exact", path, "--nocapture", "--test-threads", "1"]
        rc, out, dt = run(cmd, timeout=timeout or (ms / 1000.0 * 8 + 90), cwd=wd, extra_env=ev)
        jf = os.path.join(d, name + (".replay.json" if replay else ".json"))
        cur = os.path.join(d, name + ".current")
        res = json.load(open(jf)) if os.path.exists(jf) else None
        return rc, res, out, (open(cur).read() if os.path.exists(cur) else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def search(exe, path, name, ms, seed, known=()):
    """returns the harness report; a crash (signal, abort, hang) of the process is located by re-running with tracing"""
    rc, res, out, _ = run_one(exe, path, name, ms, seed, known)
    if res is not None:
        return res
    why = "timeout (no progress)" if rc == -99 else "process died (status %s)" % rc
    rc2, res2, out2, cur = run_one(exe, path, name, ms, seed, known, trace=True, timeout=ms / 1000.0 * 20 + 120)
    if res2 is not None and "fail" in res2:
        return res2
    if cur is not None and res2 is None:
        return {"harness": name, "evaluations": 1, "distinct_nontrivial": 0, "discarded": 0, "samples": [], "known": {},
                "fail": {"input": cur, "message": why + ": " + out2[-600:], "notes": [], "crash": True}}
    if res2 is not None:
        return res2
    raise Undecided("native harness %s: %s, not reproduced: %s" % (name, why, out[-500:]))
