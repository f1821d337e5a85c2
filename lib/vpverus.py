"""Verus engine: functions are lifted mechanically from /repo on every run and verified against the contracts in verus/*.py.

What the extraction does to the text (everything else is copied byte for byte, at AST-determined offsets):
  R0 attributes, derives, doc comments and `pub(..)` qualifiers are dropped or widened; `#[cfg(test)]` items are skipped;
     paths through `super::`/`crate::`/`self::` lose their module prefix (all items of a unit live in one module)
  R1 `a & b`, `a | b`, `a &= b`, `a |= b` become calls `vp_and(a, b)` / `vp_or(a, b)` (both operands evaluated, left to right)
     because Verus has no non-short-circuit boolean operators
  R2 `debug_assert!(c)` / `assert!(c)` become `vp_assert(c)`, whose precondition is c: they must be proved never to fire
  R8 closure k of a static table of functions becomes a function NAME_k, its parameter types given by the unit (body in an unsafe block, as the table is)
  R4 `cfg!(debug_assertions)` becomes an unconstrained boolean: both build modes are covered
  R5 `b"..".len()` in a constant becomes the length of that literal
  R6 unit-specific textual substitutions, each listed in the unit with its reason
Contracts are added: `requires/ensures` after a signature, invariants by loop ordinal, `ensures` on closures by ordinal,
ghost code at structural anchors (function start, loop k body start / end, after loop k)."""
import importlib.util, json, os, re, hashlib, tempfile
from vpcommon import *

VPX_DIR = os.path.join(VERIF, "tools", "vpx")
VPX_BIN = os.path.join(BUILD, "target-vpx", "debug", "vpx")
SHAPES = os.path.join(VERIF, "verus", "shapes.json")

def build_vpx():
    src = os.path.join(VPX_DIR, "src", "main.rs")
    if os.path.exists(VPX_BIN) and os.path.getmtime(VPX_BIN) > os.path.getmtime(src):
        return
    rc, out, dt = run(["cargo", "build", "--offline"], cwd=VPX_DIR, extra_env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target-vpx")}, timeout=300)
    if rc != 0:
        raise Undecided("vpx build failed: " + out[-2000:])

_dump = {}
def dump(rel):
    if rel not in _dump:
        build_vpx()
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            raise Undecided("lost anchor: %s does not exist" % rel)
        rc, out, _ = run([VPX_BIN, p], timeout=60)
        try:
            items = json.loads(out)[p]
        except Exception as e:
            raise Undecided("vpx failed on %s: %s" % (rel, out[-500:]))
        if isinstance(items, dict):
            raise Undecided("parse error in %s: %s" % (rel, items.get("error")))
        _dump[rel] = (open(p, "rb").read(), items)
    return _dump[rel]

class Item:
    def __init__(self, file, name, **kw):
        self.file, self.name, self.kw = file, name, kw
        self.kind = kw.pop("kind", None)

def Fn(file, name, **kw): return Item(file, name, kind="fn", **kw)
def Ty(file, name, **kw): return Item(file, name, kind="type", **kw)
def Const(file, name, **kw): return Item(file, name, kind="const", **kw)
class Raw:
    # fn: the function under contract that this text belongs to (closures of it, taken from the source)
    def __init__(self, text, fn=None): self.text, self.fn = text, fn

def find(rel, name, kinds, nth=0):
    src, items = dump(rel)
    m = [i for i in items if i["name"] == name and i["kind"] in kinds and not i.get("test")]
    if len(m) <= nth:
        raise Undecided("lost anchor: %s %s in %s" % ("/".join(kinds), name, rel))
    return src, m[nth]

class Edits:
    """position events on a byte range"""
    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, lo, hi
        self.ins = []   # (pos, order, text)
        self.rep = []   # (lo, hi, text)
    def insert_open(self, pos, end, text):   # outer constructs open first
        self.ins.append((pos, 1, -end, text))
    def insert_close(self, pos, start, text):  # inner constructs close first
        self.ins.append((pos, 0, -start, text))
    def insert_last(self, pos, text):
        self.ins.append((pos, 2, 0, text))
    def insert_first(self, pos, text):
        self.ins.append((pos, -1, 0, text))
    def replace(self, lo, hi, text):
        self.rep.append((lo, hi, text))
    def render(self):
        rep = sorted(self.rep)
        # drop replacements nested inside other replacements
        out, last = [], -1
        keep = []
        for lo, hi, t in rep:
            if lo < last:
                continue
            keep.append((lo, hi, t)); last = hi
        ev = [(p, o, k, 0, t, p) for p, o, k, t in self.ins] + [(lo, 3, 0, 1, t, hi) for lo, hi, t in keep]
        ev.sort(key=lambda e: (e[0], e[1], e[2]))
        pos, b = self.lo, []
        skip_until = -1
        for p, o, k, isrep, t, hi in ev:
            if p < self.lo or p > self.hi:
                continue
            if p < pos and not (p == pos):
                continue  # inside a replaced range
            b.append(self.src[pos:p].decode())
            pos = p
            b.append(t)
            if isrep:
                pos = hi
        b.append(self.src[pos:self.hi].decode())
        return "".join(b)

def subst_params(text, params):
    for i, p in enumerate(params):
        text = text.replace("$%d" % i, p)
    return text

MODPREFIX = {"super", "crate", "self"}

class Unit:
    def __init__(self, name):
        p = os.path.join(VERIF, "verus", name + ".py")
        spec = importlib.util.spec_from_file_location("vu_" + name, p)
        mod = importlib.util.module_from_spec(spec)
        mod.__dict__.update({"Fn": Fn, "Ty": Ty, "Const": Const, "Raw": Raw, "dump": dump, "find": find, "Undecided": Undecided})
        mod.include = lambda n: exec(compile(open(os.path.join(VERIF, "verus", n + ".py")).read(), n + ".py", "exec"), mod.__dict__)
        spec.loader.exec_module(mod)
        self.name, self.mod = name, mod
        self.rewrites = {}
        self.shapes = {}
        self.lines = []     # (first line, last line, fn key)
        self.fns = []
        self.external = []
        self.extracted_bytes = 0

    def count(self, r):
        self.rewrites[r] = self.rewrites.get(r, 0) + 1

    def clean_paths(self, ed, paths):
        drop = getattr(self.mod, "DROP_MODS", set())
        for p in paths:
            segs = p["segs"]
            n = 0
            while n < len(segs) - 1 and (segs[n][0] in MODPREFIX or (segs[n][0] in drop)):
                n += 1
            if n:
                ed.replace(segs[0][1][0], segs[n][1][0], "")
                self.count("R0")

    def fn_text(self, it, smoke):
        src, f = find(it.file, it.name, ("fn",), it.kw.get("nth", 0))
        key = it.kw.get("key", it.name)
        self.shapes[key] = {"loops": [l["kind"] for l in f["loops"]], "closures": len(f["closures"]), "calls": sorted(f["calls"]), "n_matches": len(f["matches"]), "ifs": f["ifs"],
                            "returns": len(f["returns"]), "inputs": [i["text"] for i in f["inputs"]]}
        lo, hi = f["sig"][0], f["span"][1]
        self.extracted_bytes += hi - lo
        cl = f.get("closure")
        if cl:
            self.count("R8 closure of a static table -> function")
        ext = it.kw.get("external", False)
        ed = Edits(src, lo, hi)
        nested = set(range(0))
        # --- signature
        ret = it.kw.get("ret", "r")
        if f["ret"]:
            a, b = f["ret"]
            ed.insert_first(a, "(%s: " % ret); ed.insert_last(b, ")")
        self.clean_paths(ed, f.get("sigpaths", []))
        for a, b in it.kw.get("sig_sub", []):
            sig = src[f["sig"][0]:f["body"][0]].decode()
            k = sig.find(a)
            if k < 0:
                raise Undecided("lost anchor: signature text %r of %s" % (a, it.name))
            ed.replace(f["sig"][0] + len(sig[:k].encode()), f["sig"][0] + len(sig[:k].encode()) + len(a.encode()), b)
        bs = f["body"][0]
        spec = it.kw.get("spec", "")
        if cl:
            # R8: closure k of a static table of functions becomes a function NAME_k with the parameter types given in the unit
            pt = it.kw["params"]
            if len(pt) != len(cl["params"]) or (it.kw.get("of") and it.kw["of"] != cl["of"]):
                raise Undecided("lost anchor: closures of %s" % it.name)
            ed.insert_first(bs, "fn %s(%s)\n" % (cl["name"], ", ".join("%s: %s" % x for x in zip(cl["params"], pt))) + ("    " + spec.strip() + "\n" if spec else "") + ("{ unsafe " if cl["block"] else "{ unsafe { "))
            ed.insert_last(hi, " }" if cl["block"] else " } }")
        elif spec:
            ed.insert_first(bs, "\n    " + spec.strip() + "\n")
        if it.kw.get("inherit_const", True) is False and f["const"]:
            ed.replace(f["const"][0], f["const"][1], "")
        # --- body
        if ext:
            ed.replace(f["body"][0], f["body"][1], "{ unimplemented!() }")
        hints = it.kw.get("hints", {})
        if not ext:
            start = hints.get("start", "")
            if start and not start.lstrip().startswith(("let ghost", "proof", "assert", "broadcast", "hide(")):
                start = "proof { " + start + " }"
            if smoke:
                start += "\nassert(false);"
            if start and cl and not cl["block"]:
                ed.insert_first(bs, "\n" + start + "\n")
            elif start:
                ed.insert_open(bs + 1, 10**9, "\n" + start + "\n")
            self.clean_paths(ed, f["paths"])
            if f["inputs"] and f["inputs"][0]["text"] == "mut self":
                # R7: `mut self` parameter -> `self`, rebound to a mutable local at the start of the body
                a, b = f["inputs"][0]["span"]
                ed.replace(a, b, "self")
                ed.insert_first(bs + 1, " let mut vp_self = self; ")
                bt = src[bs:hi].decode()
                for m in re.finditer(r"\bself\b(?!::)", bt):
                    q = bs + len(bt[:m.start()].encode())
                    ed.replace(q, q + 4, "vp_self")
                self.count("R7")
            narg = 0
            for inp in f["inputs"]:
                # R9: a destructuring parameter `PAT: T` -> `arg: T`, with `let PAT = arg;` at the start of the body
                a, b = inp["span"]
                m = re.match(r"(?s)^(.*[})])\s*:\s*(.*)$", src[a:b].decode())
                if m and not cl:
                    nm = "arg" + (str(narg) if narg else ""); narg += 1
                    ed.replace(a, a + len(m.group(1).encode()), nm)
                    ed.insert_first(bs + 1, " let %s = %s; " % (m.group(1), nm))
                    self.count("R9")
            for b in f["binops"]:
                if b["op"] in ("&", "|"):
                    fnn = {"&": "vp_and", "|": "vp_or"}[b["op"]]
                    ed.insert_open(b["span"][0], b["span"][1], fnn + "(")
                    ed.replace(b["o"][0], b["o"][1], ",")
                    ed.insert_close(b["span"][1], b["span"][0], ")")
                    self.count("R1")
            for b in f["assignops"]:
                if b["op"] in ("&=", "|="):
                    fnn = {"&=": "vp_and", "|=": "vp_or"}[b["op"]]
                    l = src[b["l"][0]:b["l"][1]].decode()
                    ed.replace(b["o"][0], b["o"][1], "= %s(%s," % (fnn, l))
                    ed.insert_close(b["r"][1], b["r"][0], ")")
                    self.count("R1")
            for m in f["macros"]:
                a, b = m["span"]
                inner = src[a:b].decode()
                if m["path"] in ("debug_assert", "assert"):
                    # vp_assert(c): args of the macro are not parsed by syn; only simple conditions without & and | are accepted
                    j = inner.index("(") + 1
                    ed.replace(a, a + j, "vp_assert("); self.count("R2")
                    mm = re.search(r'(?s),\s*(".*)?\)$', inner)
                    if mm:
                        ed.replace(a + len(inner[:mm.start()].encode()), b, ")")
                elif m["path"] == "cfg" and "debug_assertions" in inner:
                    ed.replace(a, b, "vp_cfg_debug()"); self.count("R4")
            for k, l in enumerate(f["loops"]):
                inv = it.kw.get("loops", {}).get(k)
                b0, b1 = l["body"]
                if inv:
                    ed.insert_first(b0, "\n" + inv.strip() + "\n")
                h = hints.get(("loop", k, "start"))
                if smoke == 2:
                    h = (h or "") + "\nassert(false);"
                if h:
                    ed.insert_open(b0 + 1, 10**9, "\n" + h + "\n")
                h = hints.get(("loop", k, "end"))
                if h:
                    ed.insert_first(b1 - 1, "\n" + h + "\n")
                h = hints.get(("loop", k, "after"))
                if h:
                    ed.insert_last(l["span"][1], "\n" + h + "\n")
                h = hints.get(("loop", k, "before"))
                if h:
                    ed.insert_open(l["span"][0], 10**9, "\n" + h + "\n")
            if len(f["loops"]) != len(it.kw.get("loops", {})) and not it.kw.get("loops_optional"):
                raise Undecided("%s: %d loops, contract has invariants for %d" % (it.name, len(f["loops"]), len(it.kw.get("loops", {}))))
            for k, c in enumerate(f["closures"]):
                hd = it.kw.get("closures", {}).get(k)
                if hd is None:
                    if it.kw.get("closures_optional"):
                        continue
                    raise Undecided("%s: closure %d has no contract" % (it.name, k))
                params = [src[a:b].decode().split(":")[0].strip() for a, b in c["inputs"]]
                ed.replace(c["or1"][0], c["or2"][1], subst_params(hd, params) + " ")
                if not c["is_block"]:
                    ed.insert_open(c["body"][0], 10**8 + c["body"][1], "{ ")
                    ed.insert_close(c["body"][1], c["body"][0] - 1, " }")
            for s in f["statics"]:
                ed.replace(s["kw"][0], s["kw"][1], "let")
                self.count("R6 local static -> let")
            for a, b in f["bodyattrs"]:
                ed.replace(a, b, "")
            for m, tgt in it.kw.get("methods", {}).items():
                # R6: method call x.m(args) -> tgt(x, args)
                for c in f["methods"]:
                    if c["name"] == m:
                        self.count("R6 ." + m + "() -> " + tgt + "()")
                        ed.insert_open(c["span"][0], c["span"][1], tgt + "(")
                        # drop ".m(" ; keep args
                        if c["args"]:
                            ed.replace(c["recv"][1], c["args"][0][0], ", ")
                        else:
                            ed.replace(c["recv"][1], c["span"][1] - 1, "")
            for h, t in hints.items():
                if isinstance(h, tuple) and h[0] == "stmt":
                    k = h[1]
                    if k >= len(f["stmts"]) and k != -1:
                        raise Undecided("lost anchor: statement %d of %s" % (k, it.name))
                    ed.insert_open(f["stmts"][k][0], 10**9, t + "\n")
                if isinstance(h, tuple) and h[0] == "call":   # before the statement holding the nth call of a given name
                    nm, k = h[1], h[2]
                    cs = [c for c in f["callexprs"] if c["name"].endswith(nm)] + [c for c in f["methods"] if c["name"] == nm]
                    cs.sort(key=lambda c: c["span"][0])
                    if k >= len(cs):
                        raise Undecided("lost anchor: call %s #%d in %s" % (nm, k, it.name))
                    best = None
                    for s in f["allstmts"]:
                        if s[0] <= cs[k]["span"][0] and cs[k]["span"][1] <= s[1] and (best is None or s[1] - s[0] < best[1] - best[0]):
                            best = s
                    if len(h) > 3 and h[3] == "after":
                        ed.insert_last(best[1], "\n" + t + "\n")
                    else:
                        ed.insert_open(best[0], 10**9, t + "\n")
        for sub in it.kw.get("sub", []) + getattr(self.mod, "SUBS", []):
            a, b = sub[0], sub[1]
            body = src[lo:hi].decode()
            ks = [m for m in re.finditer(a, body)]
            if not ks and len(sub) > 2 and sub[2] == "required":
                raise Undecided("lost anchor: text %r of %s" % (a, it.name))
            for m in ks:
                self.count("R6 " + (b.__name__ if callable(b) else b[:50]))
                ed.replace(lo + len(body[:m.start()].encode()), lo + len(body[:m.end()].encode()), b(m) if callable(b) else m.expand(b))
        txt = ed.render()
        pre = it.kw.get("attr", "")
        if ext:
            pre += " #[verifier::external_body]"
            self.external.append((key, ext if isinstance(ext, str) else ""))
        else:
            self.fns.append(key)
        is_trait = f["impl"] and f["impl"]["trait"]
        vis = "" if is_trait and not it.kw.get("inherent") else "pub "
        if not it.kw.get("pubfn", True):
            vis = ""
        return f, pre + " " + vis + txt

    def type_text(self, it):
        src, t = find(it.file, it.name, ("struct", "enum", "type"))
        self.extracted_bytes += t["span"][1] - t["span"][0]
        lo = max([a[1] for a in t["attrs"]] + [t["span"][0]])
        ed = Edits(src, lo, t["span"][1])
        for a, b in t.get("inner_attrs", []):
            ed.replace(a, b, "")
        for v in t.get("fieldvis", []):
            if len(v) == 1:
                ed.insert_open(v[0], 10**9, "pub ")
            else:
                ed.replace(v[0], v[1], "pub")
        self.clean_paths(ed, t.get("paths", []))
        for a, b in it.kw.get("sub", []):
            body = src[lo:t["span"][1]].decode()
            for m in re.finditer(a, body):
                ed.replace(lo + len(body[:m.start()].encode()), lo + len(body[:m.end()].encode()), m.expand(b)); self.count("R6 " + b[:50])
        txt = ed.render().strip()
        txt = re.sub(r"^pub(\([^)]*\))?\s+", "", txt)
        txt = re.sub(r"(?m)^\s*///.*$", "", txt)
        return it.kw.get("attr", "") + " pub " + txt.strip()

    def const_text(self, it):
        src, c = find(it.file, it.name, ("const", "static"))
        self.extracted_bytes += c["span"][1] - c["span"][0]
        expr = src[c["expr"][0]:c["expr"][1]].decode()
        ty = src[c["ty"][0]:c["ty"][1]].decode()
        m = [x for x in c.get("lits", []) if x["kind"] == "bytestr"]
        if len(m) == 1 and re.match(r'^b"(?:[^"\\]|\\.)*"\.len\(\)$', expr):
            expr = str(len(m[0]["bytes"])); self.count("R5")
        for a, b in it.kw.get("sub", []):
            expr = re.sub(a, b, expr)
        return c, it.kw.get("attr", "") + " pub const %s: %s = %s;" % (it.kw.get("rename", it.name.split("::")[-1]), ty, expr)

    def generate(self, smoke=0):
        self.rewrites, self.lines, self.fns, self.external, self.extracted_bytes = {}, [], [], [], 0
        out = []
        def emit(t):
            out.append(t)
        def lineno():
            return sum(x.count("\n") + 1 for x in out) + 1
        emit("// GENERATED from /repo by lib/vpverus.py, unit " + self.name + "; not a source file")
        emit("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\n" + getattr(self.mod, "CRATE_ATTRS", ""))
        emit("use vstd::prelude::*;\n" + getattr(self.mod, "USES", "") + "\nverus! {\n")
        emit(open(os.path.join(VERIF, "verus", "prelude.rs")).read())
        cur = None
        for it in self.mod.ITEMS:
            if isinstance(it, Raw):
                if cur is not None:
                    emit("}"); cur = None
                l0 = lineno(); emit(it.text)
                if it.fn:
                    self.lines.append((l0, lineno() - 1, it.fn))
                continue
            if it.kind == "type":
                if cur is not None:
                    emit("}"); cur = None
                emit(self.type_text(it)); continue
            if it.kind == "const":
                f, txt = self.const_text(it)
            else:
                f, txt = self.fn_text(it, smoke)
            hdr = None
            if f.get("impl"):
                src = dump(it.file)[0]
                a, b = f["impl"]["header"]
                hdr = src[a:b].decode().strip()
                hdr = it.kw.get("header", hdr)
                for x, y in getattr(self.mod, "HEADER_SUBS", []):
                    hdr = re.sub(x, y, hdr)
                ident = (it.file, hdr, a if "header" not in it.kw else 0)
            else:
                ident = None
            if it.kw.get("free"):
                ident = hdr = None
            if cur != ident:
                if cur is not None:
                    emit("}")
                cur = ident
                if ident is not None:
                    emit(hdr + " {")
            l0 = lineno()
            emit(txt)
            self.lines.append((l0, lineno() - 1, it.kw.get("key", it.name)))
        if cur is not None:
            emit("}")
        emit("\n} // verus!\nfn main() {}\n")
        return "\n".join(out)

    def smoke_expected(self):
        return list(self.fns)

SEM = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic underflow/overflow",
       "decreases not satisfied", "possible division by zero", "possible bit shift underflow/overflow", "index out of bounds", "unreachable", "loop invariant", "constructed value may fail",
       "assertion not satisfied", "requires not satisfied", "possible truncation", "cannot show", "could not prove", "possible overflow", "failed this", "precondition not met", "failed precondition")

def run_verus(unit, smoke=0, timeout=300, rlimit=30):
    text = unit.generate(smoke)
    d = os.path.join(BUILD, "verus"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, unit.name + ("_smoke%d" % smoke if smoke else "") + ".rs")
    open(p, "w").write(text)
    cmd = ["verus", p, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", "8", "--multiple-errors", "1" if smoke else "2", "--", "--error-format=json"]
    # stdout: json; stderr: rustc json diagnostics, both captured together
    rc, out, dt = run(cmd, timeout=timeout, cwd=d)
    if rc == -99:
        raise Undecided("verus timed out on unit " + unit.name)
    errs, rest = [], []
    for line in out.splitlines():
        if line.startswith('{"$message_type"') or (line.startswith("{") and '"rendered"' in line):
            try:
                m = json.loads(line)
            except ValueError:
                rest.append(line); continue
            if m.get("level") == "error":
                errs.append(m)
        else:
            rest.append(line)
    rs = "\n".join(rest)
    res = {}
    i = rs.find("{")
    if i >= 0:
        try:
            res = json.JSONDecoder().raw_decode(rs[i:])[0]
        except ValueError:
            pass
    vr = res.get("verification-results", {})
    fails, unsup = [], []
    for m in errs:
        msg = m["message"]
        if msg.startswith("aborting due to") or "previous error" in msg:
            continue
        spans = m.get("spans", [])
        fn = None
        for s in sorted(spans, key=lambda s: not s.get("is_primary")):
            for l0, l1, name in unit.lines:
                if l0 <= s["line_start"] <= l1 and (fn is None):
                    # the failing site is in the caller: prefer spans in a non-clause position
                    fn = name
        # for precondition failures, the call site is the primary span; for postconditions the function itself
        rec = {"message": msg, "fn": fn, "lines": [(s["line_start"], (s.get("text") or [{}])[0].get("text", "").strip(), s.get("label")) for s in spans], "rendered": m.get("rendered", "")}
        if "rlimit" in msg or "Resource limit" in msg:
            rec["rlimit"] = True; unsup.append(rec)
        elif any(k in msg for k in SEM) and not m.get("code"):
            fails.append(rec)
        else:
            unsup.append(rec)
    r = {"rc": rc, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "success": vr.get("success", False), "fails": fails, "unsupported": unsup, "wall": dt,
         "times": res.get("times-ms", {}), "path": p, "raw": rs[-1500:], "encountered_vir": vr.get("encountered-vir-error", False)}
    return r

def smt_ms(r):
    try:
        return r["times"]["smt"]["smt-run"]
    except Exception:
        try:
            return r["times"]["verify"]["smt"]["run"]
        except Exception:
            return None

def shapes_changed(unit):
    base = json.load(open(SHAPES)).get(unit.name, {}) if os.path.exists(SHAPES) else {}
    return [k for k, v in unit.shapes.items() if base.get(k) != v]

def save_shapes(unit):
    base = json.load(open(SHAPES)) if os.path.exists(SHAPES) else {}
    base[unit.name] = unit.shapes
    open(SHAPES, "w").write(json.dumps(base, indent=1, sort_keys=True) + "\n")

if __name__ == "__main__":
    import sys
    u = Unit(sys.argv[1])
    r = run_verus(u)
    print(json.dumps({k: v for k, v in r.items() if k not in ("times", "fails", "unsupported", "raw")}, indent=1))
    print("smt", smt_ms(r))
    for x in r["fails"] + r["unsupported"]:
        print("==", x["fn"], x["message"]); print(x["rendered"][:2500])
    if not r["verified"] and not r["fails"] and not r["unsupported"]:
        print(r["raw"])
    print("rewrites", u.rewrites, "fns", len(u.fns), "external", u.external)
    if "--smoke" in sys.argv:
        u2 = Unit(sys.argv[1]); s = run_verus(u2, smoke=1)
        bad = set(u2.fns) - {x["fn"] for x in s["fails"]}
        print("smoke: vacuous =", bad, [x["message"] for x in s["unsupported"]][:5])
    if "--save" in sys.argv:
        save_shapes(u)
