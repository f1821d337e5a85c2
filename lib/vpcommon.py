"""Shared plumbing: paths, environment, the mirror of /repo that harness modules are attached to."""
import os, re, subprocess, sys, json, time, hashlib, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
WS = os.path.join(BUILD, "ws")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

class Undecided(Exception):
    """The machinery could not decide (tool limit, lost anchor, build failure of a harness)."""

def log(*a):
    print("[vp]", *a, file=sys.stderr, flush=True)

def env(extra=None):
    e = dict(os.environ)
    e.update({
        "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
        "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        "RUST_BACKTRACE": "0",
    })
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    if extra:
        e.update(extra)
    return e

def run(cmd, timeout=None, cwd=None, extra_env=None, capture=True):
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env(extra_env), stdout=subprocess.PIPE if capture else None,
                             stderr=subprocess.STDOUT if capture else None, start_new_session=True,
                             stdin=subprocess.DEVNULL)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            rc = -99
    except FileNotFoundError as e:
        return 127, str(e), time.time() - t0
    return rc, (out or b"").decode("utf-8", "replace"), time.time() - t0

# ---------------------------------------------------------------------------------------------
# harness registry: every /verif/harness/*.rs says where it is attached
#   // @attach <file below /repo>      (the module becomes a child of that source file's module)
#   // @feature <name>                 (cargo feature that switches it on; mirror only)
# ---------------------------------------------------------------------------------------------
TOPS = ("server", "libsky", "sky-macros", "harness")   # `harness` only so that dependency features resolve as in /opt/vp

def seed_target(td):
    """start from the dependency build products of /opt/vp (same lock file, profile and features): saves a minute"""
    src = "/opt/vp/target"
    if os.path.isdir(td) or not os.path.isdir(os.path.join(src, "debug", "deps")):
        return
    os.makedirs(td)
    run(["rsync", "-a", "--exclude", "incremental", "--exclude", "skyd-*", "--exclude", "harness-*", src + "/", td + "/"], timeout=120)

def native_libs_env():
    """Kani never links: point the -sys crates at the libraries already built in /opt/vp instead of compiling them again"""
    import glob
    o = glob.glob("/opt/vp/target/debug/build/openssl-sys-*/out/openssl-build/install")
    j = glob.glob("/opt/vp/target/debug/build/jemalloc-sys-*/out/lib/libjemalloc_pic.a")
    e = {}
    if o:
        e.update({"OPENSSL_NO_VENDOR": "1", "OPENSSL_DIR": o[0], "OPENSSL_STATIC": "1"})
    if j:
        e["JEMALLOC_OVERRIDE"] = j[0]
    return e

def harness_files():
    out = []
    for f in sorted(os.listdir(HARNESS)):
        if not f.endswith(".rs") or f in ("vp.rs",):
            continue
        p = os.path.join(HARNESS, f)
        head = open(p).read(2000)
        a = re.search(r"^// @attach (\S+)", head, re.M)
        ft = re.search(r"^// @feature (.+)$", head, re.M)
        if a and ft:
            out.append((p, a.group(1), ft.group(1).split(), "__vp_" + f[:-3], "test" if re.search(r"^// @native", head, re.M) else "any(test, kani)"))
    return out

def harnesses_to_blame(errtext):
    """the harness modules that compiler errors point into (a change to /repo made them stop compiling)"""
    bad = []
    for p, tgt, fts, mod, cfg in harness_files():
        if re.search(r"-->\s*" + re.escape(p) + r":\d", errtext):
            bad.append(mod)
    return bad

def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as fh:
            if fh.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as fh:
        fh.write(data)
    return True

def sync_mirror():
    """Mirror /repo (tracked + untracked sources, not .git/target) into BUILD/ws.

    Dropped / changed, and nothing else: the members `cli`, `sky-bench`, `harness` and the git dev-dependency
    `skytable` (cannot be resolved offline; same as /opt/vp/env.sh), the test module that needs it, and the
    `mod __vp_*;` lines and cargo features that attach the harness modules."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hs = harness_files()
    feats = sorted({f for h in hs for f in h[2]})
    attach = {}
    for p, tgt, fts, mod, cfg in hs:
        attach.setdefault(tgt, []).append((p, fts, mod, cfg))
    missing = [t for t in attach if not os.path.exists(os.path.join(REPO, t))]
    seen = set()
    for top in TOPS:
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            for f in files:
                src = os.path.join(d, f)
                rel = os.path.relpath(src, REPO)
                if os.path.islink(src):
                    continue
                data = open(src, "rb").read()
                if rel == "server/Cargo.toml":
                    s = data.decode()
                    s = re.sub(r"(?m)^skytable *= *\{ *git *=.*$", "", s)
                    s = re.sub(r"(?m)^\[features\]\n", "[features]\n" + "".join("vp_%s = []\n" % x for x in feats) + "".join("vpdrop_%s = []\n" % h[3] for h in hs), s)
                    data = s.encode()
                if rel == "server/src/engine/tests/mod.rs":
                    data = re.sub(rb"(?m)^mod client_misc;$", b"", data)
                if rel == "server/src/main.rs":
                    if b"recursion_limit" not in data:
                        data = b'#![recursion_limit = "512"] ' + data
                    data += b"\n#[cfg(any(test, kani))]\n#[path = \"%s\"]\npub mod vp;\n" % os.path.join(HARNESS, "vp.rs").encode()
                for p, fts, mod, cfg in attach.get(rel, []):
                    cond = ", ".join('feature = "vp_%s"' % x for x in fts)
                    data += ('\n#[cfg(all(%s, any(%s), not(feature = "vpdrop_%s")))]\n#[path = "%s"]\n#[allow(unused, static_mut_refs)]\npub(crate) mod %s;\n' % (cfg, cond, mod, p, mod)).encode()
                seen.add(rel)
                write_if_changed(os.path.join(WS, rel), data)
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    root = re.sub(r"members\s*=\s*\[[^\]]*\]", 'members = ["server", "libsky", "sky-macros", "harness"]', root)
    write_if_changed(os.path.join(WS, "Cargo.toml"), root)
    lockf = os.path.join(WS, "Cargo.lock")
    stamp = os.path.join(BUILD, "lock.sha")
    src = open(os.path.join(REPO, "Cargo.lock"), "rb").read()
    h = hashlib.sha256(src + root.encode() + repr(TOPS).encode()).hexdigest()
    if not os.path.exists(lockf) or not os.path.exists(stamp) or open(stamp).read() != h:
        with open(lockf, "wb") as fh:
            fh.write(src)
        open(stamp, "w").write(h)
    # remove files that no longer exist in /repo
    for top in TOPS:
        for d, dirs, files in os.walk(os.path.join(WS, top)):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), WS)
                if rel not in seen:
                    os.remove(os.path.join(d, f))
    return lock, missing

def tree_hash():
    h = hashlib.sha256()
    for top in ("server/src", "libsky", "sky-macros"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
