"""P03: the decimal renderer (`Int::init` of mem/numbuf.rs), for every integer width.

Extraction: the arm of `macro_rules! impl_int` is instantiated textually for every `<int> => <max> as <cast>` of its one invocation.
Then, and nothing else: `Self` / `self` become a parameter; the raw pointers `buf_ptr`, `lut_ptr` are resolved to the arrays they were
taken from and every access through them becomes a call that demands the access to be in bounds (R8: copy_nonoverlapping -> vp_copy,
`*p.offset(i) = v` -> vp_set, slice::from_raw_parts(p.offset(i), n) -> vp_tail, which returns i and demands i + n <= len);
`mem::size_of::<Self>()` becomes the size of the type; `unsafe` markers and attributes are dropped."""
import os, re
from vpcommon import BUILD, REPO
SRC = "server/src/engine/mem/numbuf.rs"
CRATE_ATTRS = ""
txt = open(os.path.join(REPO, SRC)).read()
def block(s, i):
    """text of the brace block that starts at s[i]"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in "{([": d += 1
        if s[j] in "})]":
            d -= 1
            if d == 0: return s[i:j + 1]
    raise Undecided("unbalanced block in " + SRC)
m = re.search(r"macro_rules!\s+impl_int\s*\{", txt)
if not m: raise Undecided("lost anchor: macro impl_int")
mac = block(txt, m.end() - 1)
h = re.search(r"\(impl\s+Int\s+for\s+\$int\s*\{", mac)
f = re.search(r"fn\s+init\s*\(self,\s*buf:\s*&mut\s+Self::Buffer\)\s*->\s*&\[u8\]\s*\{", mac)
if not (h and f): raise Undecided("lost anchor: impl Int in impl_int")
body = block(mac, f.end() - 1)
inv = re.search(r"(?m)^impl_int!\((.*?)\);", txt, re.S)
if not inv: raise Undecided("lost anchor: impl_int! invocation")
TYS = []
pend = []
for t, mx, cast in re.findall(r"(\w+)\s*=>\s*(\d+)(?:\s+as\s+(\w+))?", inv.group(1)):
    pend.append((t, int(mx)))
    if cast:
        TYS += [(a, b, cast) for a, b in pend]; pend = []
if pend or len(TYS) != 8: raise Undecided("impl_int! invocation has another form")
SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}
def instantiate(t, mx, cast):
    b = body.replace("$int", t).replace("$max", str(mx)).replace("$cast", cast)
    b = re.sub(r"#\[[^\]]*\]", "", b)
    b = re.sub(r"\bunsafe\s*\{", "{", b)
    b = re.sub(r"mem::size_of::<Self>\(\)", str(SIZE[t]), b)
    b = re.sub(r"\bself\b", "vself", b)
    alias = {}
    for v, a in re.findall(r"let\s+(\w+)\s*=\s*(\w+)\.as(?:_mut)?_ptr\(\);", b): alias[v] = a
    b = re.sub(r"let\s+\w+\s*=\s*\w+\.as(?:_mut)?_ptr\(\);", "", b)
    off = lambda: r"(%s)\.offset\(([^()]*)\)" % "|".join(map(re.escape, alias))
    if alias:
        b = re.sub(r"ptr::copy_nonoverlapping\(%s,\s*%s,\s*(\w+)\)" % (off(), off()), lambda m: "vp_copy(&%s, %s, %s, %s, %s)" % (alias[m[1]], m[2], alias[m[3]], m[4], m[5]), b)
        b = re.sub(r"\*%s\s*=\s*([^;]*);" % off(), lambda m: "vp_set(%s, %s, %s);" % (alias[m[1]], m[2], m[3]), b)
        b = re.sub(r"slice::from_raw_parts\(%s,\s*([^()]*(?:\(\))?[^()]*)\)" % off(), lambda m: "vp_tail(%s, %s, %s)" % (alias[m[1]], m[2], m[3]), b)
    b = re.sub(r"(?m)^(\s*)(\w+)\s*([/%])=\s*([^;]*);", r"\1\2 = \2 \3 \4;", b)
    b = re.sub(r"\bbuf\.len\(\)", "vp_len(buf)", b)
    b = re.sub(r"vp_(copy|set|tail)\((.*?)\bbuf,", lambda m: "vp_%s(%sbuf," % (m[1], m[2]), b)
    return "fn init_%s(vself: %s, buf: &mut [u8; %d]) -> usize %s\n" % (t, t, mx, b)
GEN = os.path.join(BUILD, "verus", "numbuf_gen.rs")
os.makedirs(os.path.dirname(GEN), exist_ok=True)
open(GEN, "w").write("".join(instantiate(*x) for x in TYS))
import vpverus
vpverus._dump.pop(GEN, None)

src, c = find(SRC, "DEC_DIGITS_LUT", ("const", "static"))
LUT = [x for x in c["lits"] if x["kind"] == "bytestr"][0]["bytes"]

SPEC = r'''
global size_of usize == 8;
pub const DEC_DIGITS_LUT: [u8; %d] = [%s];
pub open spec fn lut() -> Seq<u8> { seq![%s] }
proof fn lut_is() ensures DEC_DIGITS_LUT@ =~= lut() { }
/// every pair of the table is the two digits of its index
pub open spec fn lut_chk(k: nat) -> bool decreases k { k == 0 || (lut_chk((k - 1) as nat) && lut()[2 * (k - 1)] == (48 + (k - 1) / 10) as u8 && lut()[2 * (k - 1) + 1] == (48 + (k - 1) %% 10) as u8) }
proof fn lut_all(k: nat, n: nat) requires lut_chk(n), k < n ensures lut()[2 * k as int] == (48 + k / 10) as u8, lut()[2 * k as int + 1] == (48 + k %% 10) as u8 decreases n
{ if k + 1 < n { lut_all(k, (n - 1) as nat); } }
proof fn lut_ok(k: nat) requires k < 100 ensures lut().len() == 200, lut()[2 * k as int] == (48 + k / 10) as u8, lut()[2 * k as int + 1] == (48 + k %% 10) as u8
{ assert(lut_chk(100)) by (compute_only); assert(lut().len() == 200) by (compute_only); lut_all(k, 100); }
''' % (len(LUT), ", ".join(map(str, LUT)), ", ".join("%du8" % x for x in LUT)) + r'''
/// the shortest decimal numeral
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn numeral(i: int) -> Seq<u8> { if i < 0 { seq![45u8] + dec((-i) as nat) } else { dec(i as nat) } }
pub open spec fn two_dig(k: int) -> Seq<u8> { seq![(48 + k / 10) as u8, (48 + k % 10) as u8] }
proof fn dec4(n: nat) requires n >= 10000
    ensures dec(n) =~= dec(n / 10000) + two_dig((n % 10000) as int / 100) + two_dig((n % 10000) as int % 100)
{
    let a = n / 10; let b = a / 10; let c = b / 10;
    assert(b == n / 100 && c == n / 1000 && c / 10 == n / 10000);
    assert(dec(n) == dec(a).push((48 + n % 10) as u8));
    assert(dec(a) == dec(b).push((48 + a % 10) as u8));
    assert(dec(b) == dec(c).push((48 + b % 10) as u8));
    assert(dec(c) == dec(c / 10).push((48 + c % 10) as u8));
    let r = n % 10000;
    assert(r / 100 / 10 == c % 10 && r / 100 % 10 == b % 10 && r % 100 / 10 == a % 10 && r % 100 % 10 == n % 10);
}
proof fn dec2(n: nat) requires n >= 100 ensures dec(n) =~= dec(n / 100) + two_dig((n % 100) as int)
{
    let a = n / 10;
    assert(dec(n) == dec(a).push((48 + n % 10) as u8));
    assert(dec(a) == dec(a / 10).push((48 + a % 10) as u8));
    assert(a / 10 == n / 100 && n % 100 / 10 == a % 10 && n % 100 % 10 == n % 10);
}
proof fn dec1(n: nat) requires 10 <= n < 100 ensures dec(n) =~= two_dig(n as int)
{ assert(dec(n) == dec(n / 10).push((48 + n % 10) as u8)); assert(dec(n / 10) == seq![(48 + n / 10) as u8]); }
/// how long numerals are
proof fn dec_len(n: nat, k: nat) requires n < pow10(k), k >= 1 ensures 1 <= dec(n).len() <= k decreases k
{ if n >= 10 { assert(k >= 2) by { assert(pow10(1) == 10) by (compute); } assert(pow10(k) == 10 * pow10((k - 1) as nat)); assert(n / 10 < pow10((k - 1) as nat)); dec_len(n / 10, (k - 1) as nat); } }
pub open spec fn pow10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }

proof fn dec_pos(n: nat) ensures dec(n).len() >= 1 decreases n { if n >= 10 { dec_pos(n / 10); } }
broadcast proof fn shl1(x: isize) requires 0 <= x < 100000 ensures #[trigger] (x << 1) == 2 * x { assert(0 <= x < 100000 ==> (x << 1) as int == 2 * x) by (bit_vector); }
pub open spec fn tl(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, s.len() as int) }

// TRUSTED: in-bounds copies, stores and lengths of one array (ptr::copy_nonoverlapping, *p.offset(i) = v, slice::len)
#[verifier::external_body]
fn vp_copy0<const N: usize>(from: &[u8; 200], i: isize, buf: &mut [u8; N], j: isize, n: isize)
    requires 0 <= i, 0 <= n, i + n <= 200, 0 <= j, j + n <= N
    ensures forall|x: int| 0 <= x < N ==> #[trigger] final(buf)@[x] == if j <= x < j + n { from@[i + x - j] } else { old(buf)@[x] }
{ unimplemented!() }
fn vp_copy<const N: usize>(from: &[u8; 200], i: isize, buf: &mut [u8; N], j: isize, n: isize)
    requires 0 <= i, 0 <= n, i + n <= 200, 0 <= j, j + n <= N
    ensures tl(final(buf)@, j as int) =~= from@.subrange(i as int, i + n) + tl(old(buf)@, j + n),
        forall|x: int| 0 <= x < N ==> #[trigger] final(buf)@[x] == if j <= x < j + n { from@[i + x - j] } else { old(buf)@[x] },
        forall|x: int| #![trigger tl(final(buf)@, x)] j + n <= x <= N ==> tl(final(buf)@, x) =~= tl(old(buf)@, x)
{ vp_copy0(from, i, buf, j, n) }
#[verifier::external_body]
fn vp_set<const N: usize>(buf: &mut [u8; N], j: isize, v: u8)
    requires 0 <= j < N
    ensures final(buf)@ == old(buf)@.update(j as int, v)
{ unimplemented!() }
fn vp_tail<const N: usize>(buf: &[u8; N], j: isize, n: usize) -> (r: usize)
    requires 0 <= j, j + n == N
    ensures r == j
{ j as usize }
#[verifier::external_body]
fn vp_len<const N: usize>(buf: &[u8; N]) -> (r: usize) ensures r == N { N }
/// the pair of digits at 2k of the table
proof fn pair(k: int) requires 0 <= k < 100 ensures DEC_DIGITS_LUT@.subrange(2 * k, 2 * k + 2) =~= two_dig(k), DEC_DIGITS_LUT@[2 * k] == two_dig(k)[0], DEC_DIGITS_LUT@[2 * k + 1] == two_dig(k)[1] { lut_is(); lut_ok(k as nat); }
'''
NEG = "".join("proof fn neg_%s(v: %s) requires v < 0 ensures (!(v as %s)) == -(v as int) - 1 { assert(v < 0 ==> (!(v as %s)) as int == -(v as int) - 1) by (bit_vector); }\n" % (t, t, c, c) for t, _, c in TYS if t[0] == "i")
MAG = {1: 255, 2: 65535, 4: 4294967295, 8: 18446744073709551615}
def unit(t, mx, cast):
    signed = t[0] == "i"
    L = mx - (1 if signed else 0)
    mag = MAG[SIZE[t]] // 2 + 1 if signed else MAG[SIZE[t]]
    D = dict(N=mx, L=L, mag=mag, t=t)
    return Fn(GEN, "init_" + t, attr="#[verifier::loop_isolation(false)]",
        spec="ensures r <= %(N)d, tl(final(buf)@, r as int) =~= numeral(vself as int)," % D,
        hints={
            "start": ("broadcast use shl1; let ghost m0: nat = if vself < 0 { (-(vself as int)) as nat } else { vself as nat }; proof { "
                + ("if vself < 0 { neg_%(t)s(vself); } " if signed else "") + "assert(pow10(%(L)d) > %(mag)d) by (compute); dec_len(m0, %(L)d); assert(tl(buf@, %(N)d) =~= Seq::<u8>::empty()); }") % D,
            ("loop", 0, "start"): "let ghost b0 = buf@; let ghost nn = n as nat; proof { dec4(nn); dec_pos(nn / 10000); pair((nn % 10000 / 100) as int); pair((nn % 10000 % 100) as int); }",
            ("loop", 0, "end"): "proof { let c = curr_idx as int; let ka = (nn % 10000) as int / 100; let kb = (nn % 10000) as int % 100; assert(buf@[c] == two_dig(ka)[0] && buf@[c + 1] == two_dig(ka)[1] && buf@[c + 2] == two_dig(kb)[0] && buf@[c + 3] == two_dig(kb)[1]); assert(tl(buf@, c + 4) =~= tl(b0, c + 4)); assert(tl(buf@, curr_idx as int) =~= two_dig((nn % 10000) as int / 100) + two_dig((nn % 10000) as int % 100) + tl(b0, curr_idx + 4)); }",
            ("call", "vp_copy", 2): "proof { let k = d1 as int / 2; let o = (n * 100 + k) as nat; assert(o / 100 == n && o % 100 == k); dec2(o); pair(k); dec_pos(n as nat); assert(dec(o) + tl(buf@, curr_idx + 2) =~= dec(n as nat) + (two_dig(k) + tl(buf@, curr_idx + 2))); }",
            ("call", "vp_set", 0): "let ghost t0 = tl(buf@, curr_idx + 1);",
            ("call", "vp_copy", 3): "proof { dec1(n as nat); pair(n as int); }",
        },
        loops={0: "invariant 0 <= curr_idx <= %(N)d, dec(m0) =~= dec(n as nat) + tl(buf@, curr_idx as int), dec(m0).len() <= %(L)d, decreases n," % D})
ITEMS = [Raw(SPEC + NEG)] + [unit(*x) for x in TYS]
