"""P03: the bytes sent for one value (core/dml/sel.rs, encode_cell), for every value; and that they identify the value

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * the lock around a list of cells (`read_list().read()` becomes the list);
 * `IntegerRepr::scoped(x, |b| resp.extend(b))` becomes `vp_num(resp, x)`: the numeral of x is appended. That `Int::init` writes the
   numeral is proved by the unit numbuf for every number of every width; the wrappers `scoped` and `as_bytes` only hand it on;
 * `f.to_string().as_bytes()` becomes `vp_ftext`, the text of a float (core's Display, assumed);
 * `for x in l.iter()` becomes a loop over the indices; `b as u8` of a bool becomes `if b { 1 } else { 0 }`.
"""
include("cells")
SE = "server/src/engine/core/dml/sel.rs"
SPEC_R = r'''
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn numeral(i: int) -> Seq<u8> { if i < 0 { seq![45u8] + dec((-i) as nat) } else { dec(i as nat) } }
/// the text of a float (given by its bits)
pub uninterp spec fn ftext(bits: u64) -> Seq<u8>;
pub uninterp spec fn fnan(bits: u64) -> bool;
// TRUSTED: core's Display of floats: the shortest text that reads back as the same float (no newline in it)
pub axiom fn ftext_is(a: u64) ensures !ftext(a).contains(10u8);
pub axiom fn ftext_inj(a: u64, b: u64) requires !fnan(a), !fnan(b), ftext(a) == ftext(b) ensures a == b;
/// what a client receives for a value
pub open spec fn sent(v: V) -> Seq<u8> decreases v { seq![tag_of(v)] + (match v {
    V::Null => Seq::empty(), V::Bool(b) => seq![if b { 1u8 } else { 0u8 }],
    V::Qw(t, x) => (if t <= 5 { numeral(x as int) } else if t <= 9 { numeral(x as i64 as int) } else { ftext(x) }).push(10u8),
    V::Bytes(_, b) => numeral(b.len() as int).push(10u8) + b,
    V::List(s) => numeral(s.len() as int).push(10u8) + sent_all(s, s.len()) }) }
pub open spec fn sent_all(s: Seq<V>, n: nat) -> Seq<u8> decreases s, n when n <= s.len() { if n == 0 { Seq::empty() } else { sent_all(s, (n - 1) as nat) + sent(s[n - 1]) } }
// ---- the bytes identify the value: lines
proof fn dec_digits(n: nat) ensures dec(n).len() >= 1, forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57 decreases n { if n >= 10 { dec_digits(n / 10); } }
proof fn dec_inj(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b decreases a {
    if a >= 10 && b >= 10 { assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10)); dec_inj(a / 10, b / 10); assert(dec(a).last() == (48 + a % 10) as u8 && dec(b).last() == (48 + b % 10) as u8); }
    else if a >= 10 { dec_digits(a / 10); assert(dec(a).len() >= 2); } else if b >= 10 { dec_digits(b / 10); assert(dec(b).len() >= 2); }
    else { assert(dec(a)[0] == (48 + a) as u8 && dec(b)[0] == (48 + b) as u8); }
}
proof fn num_line(i: int) ensures !numeral(i).contains(10u8), numeral(i).len() >= 1 { if i < 0 { dec_digits((-i) as nat); } else { dec_digits(i as nat); } }
proof fn num_inj(a: int, b: int) requires numeral(a) == numeral(b) ensures a == b {
    if a < 0 && b < 0 { assert(numeral(a).skip(1) =~= dec((-a) as nat)); assert(numeral(b).skip(1) =~= dec((-b) as nat)); dec_inj((-a) as nat, (-b) as nat); }
    else if a < 0 { dec_digits(b as nat); assert(numeral(a)[0] == 45u8); assert(numeral(b)[0] == dec(b as nat)[0]); } else if b < 0 { dec_digits(a as nat); assert(numeral(b)[0] == 45u8); assert(numeral(a)[0] == dec(a as nat)[0]); }
    else { dec_inj(a as nat, b as nat); }
}
/// a line is read back up to its newline
proof fn line_uniq(a: Seq<u8>, p: Seq<u8>, q: Seq<u8>) requires starts(a, p.push(10u8)), starts(a, q.push(10u8)), !p.contains(10u8), !q.contains(10u8) ensures p == q {
    let (n, m) = (p.len() as int, q.len() as int);
    assert(a[n] == a.take(n + 1)[n] && p.push(10u8)[n] == 10); assert(a[m] == a.take(m + 1)[m] && q.push(10u8)[m] == 10);
    if n < m { assert(a[n] == a.take(m + 1)[n] && q.push(10u8)[n] == q[n]); assert(q.contains(q[n])); }
    if m < n { assert(a[m] == a.take(n + 1)[m] && p.push(10u8)[m] == p[m]); assert(p.contains(p[m])); }
    assert(p =~= a.take(n + 1).take(n)) by { assert(p.push(10u8).take(n) =~= p); } assert(q =~= a.take(m + 1).take(m)) by { assert(q.push(10u8).take(m) =~= q); }
}
proof fn sent_same(s: Seq<V>, t: Seq<V>, n: nat) requires n <= s.len(), n <= t.len(), s.take(n as int) =~= t.take(n as int) ensures sent_all(s, n) == sent_all(t, n) decreases n {
    if n > 0 { assert(s.take(n as int)[n - 1] == t.take(n as int)[n - 1]); assert(s.take(n - 1) =~= s.take(n as int).take(n - 1)); assert(t.take(n - 1) =~= t.take(n as int).take(n - 1)); sent_same(s, t, (n - 1) as nat); }
}
pub open spec fn no_nan(v: V) -> bool decreases v { match v { V::Qw(t, x) => t < 10 || !fnan(x), V::List(s) => forall|i: int| 0 <= i < s.len() ==> no_nan(#[trigger] s[i]), _ => true } }
/// two values that begin the same received bytes are the same value
pub proof fn sent_uniq(v: V, w: V, a: Seq<u8>) requires wf(v), wf(w), no_nan(v), no_nan(w), starts(a, sent(v)), starts(a, sent(w)) ensures v == w decreases v {
    let (bv, bw) = (sent(v).skip(1), sent(w).skip(1));
    assert(sent(v) =~= seq![tag_of(v)] + bv); assert(sent(w) =~= seq![tag_of(w)] + bw);
    starts_cut(a, seq![tag_of(v)], bv); starts_cut(a, seq![tag_of(w)], bw); starts_both(a, seq![tag_of(v)], seq![tag_of(w)]); assert(seq![tag_of(v)][0] == seq![tag_of(w)][0]);
    let c = a.skip(1);
    match (v, w) {
        (V::Null, V::Null) => {}
        (V::Bool(x), V::Bool(y)) => { assert(bv =~= seq![if x { 1u8 } else { 0u8 }]); assert(bw =~= seq![if y { 1u8 } else { 0u8 }]); starts_both(c, bv, bw); assert(bv[0] == bw[0]); }
        (V::Qw(t, x), V::Qw(u, y)) => {
            let l = |x: u64| if t <= 5 { numeral(x as int) } else if t <= 9 { numeral(x as i64 as int) } else { ftext(x) };
            assert(bv =~= l(x).push(10u8)); assert(bw =~= l(y).push(10u8));
            num_line(x as int); num_line(y as int); num_line(x as i64 as int); num_line(y as i64 as int); ftext_is(x); ftext_is(y);
            line_uniq(c, l(x), l(y));
            if t <= 5 { num_inj(x as int, y as int); } else if t <= 9 { num_inj(x as i64 as int, y as i64 as int); assert(x as i64 == y as i64 ==> x == y) by (bit_vector); } else { ftext_inj(x, y); }
        }
        (V::Bytes(_, x), V::Bytes(_, y)) => {
            let (p, q) = (numeral(x.len() as int).push(10u8), numeral(y.len() as int).push(10u8));
            assert(bv =~= p + x); assert(bw =~= q + y); starts_cut(c, p, x); starts_cut(c, q, y); num_line(x.len() as int); num_line(y.len() as int);
            line_uniq(c, numeral(x.len() as int), numeral(y.len() as int)); num_inj(x.len() as int, y.len() as int); starts_both(c.skip(p.len() as int), x, y);
        }
        (V::List(x), V::List(y)) => {
            let (p, q) = (numeral(x.len() as int).push(10u8), numeral(y.len() as int).push(10u8)); let n = x.len();
            assert(bv =~= p + sent_all(x, n)); assert(bw =~= q + sent_all(y, y.len())); starts_cut(c, p, sent_all(x, n)); starts_cut(c, q, sent_all(y, y.len())); num_line(n as int); num_line(y.len() as int);
            line_uniq(c, numeral(n as int), numeral(y.len() as int)); num_inj(n as int, y.len() as int);
            sent_items_uniq(v, x, y, c.skip(p.len() as int), n); assert(x.take(n as int) =~= x); assert(y.take(n as int) =~= y);
        }
        _ => { assert(tag_of(v) == tag_of(w)); }
    }
}
proof fn sent_items_uniq(v: V, s: Seq<V>, t: Seq<V>, a: Seq<u8>, n: nat)
    requires v == V::List(s), wf(v), no_nan(v), forall|i: int| 0 <= i < t.len() ==> wf(#[trigger] t[i]) && no_nan(t[i]), n <= s.len(), n <= t.len(), starts(a, sent_all(s, n)), starts(a, sent_all(t, n)) ensures s.take(n as int) =~= t.take(n as int) decreases v, n
{
    if n > 0 {
        let m = (n - 1) as nat;
        starts_cut(a, sent_all(s, m), sent(s[m as int])); starts_cut(a, sent_all(t, m), sent(t[m as int]));
        sent_items_uniq(v, s, t, a, m); sent_same(s, t, m);
        assert(wf(t[m as int]) && no_nan(t[m as int]) && wf(s[m as int]) && no_nan(s[m as int]));
        sent_uniq(s[m as int], t[m as int], a.skip(sent_all(s, m).len() as int));
        assert(s.take(n as int) =~= s.take(m as int).push(s[m as int])); assert(t.take(n as int) =~= t.take(m as int).push(t[m as int]));
    }
}
// ---- exec helpers
pub trait Num { spec fn val(self) -> int; }
impl Num for u8 { open spec fn val(self) -> int { self as int } }
impl Num for u16 { open spec fn val(self) -> int { self as int } }
impl Num for u32 { open spec fn val(self) -> int { self as int } }
impl Num for u64 { open spec fn val(self) -> int { self as int } }
impl Num for usize { open spec fn val(self) -> int { self as int } }
impl Num for i8 { open spec fn val(self) -> int { self as int } }
impl Num for i16 { open spec fn val(self) -> int { self as int } }
impl Num for i32 { open spec fn val(self) -> int { self as int } }
impl Num for i64 { open spec fn val(self) -> int { self as int } }
#[verifier::external_body] fn vp_num<I: Num>(buf: &mut Vec<u8>, x: I) ensures final(buf)@ == old(buf)@ + numeral(x.val()) { unimplemented!() }
#[verifier::external_body] fn vp_ftext(buf: &mut Vec<u8>, x: VpF) ensures final(buf)@ == old(buf)@ + ftext(x.bits()) { unimplemented!() }
#[verifier::external_body] pub struct VpF { x: f64 }
impl VpF { pub uninterp spec fn bits(&self) -> u64; }
impl Datacell {
    #[verifier::external_body] pub fn read_sint(&self) -> (r: i64) requires self.v() is Qw ensures r == self.v()->Qw_1 as i64 { unimplemented!() }
    #[verifier::external_body] pub fn read_float(&self) -> (r: VpF) requires self.v() is Qw ensures r.bits() == self.v()->Qw_1 { unimplemented!() }
}
global size_of usize == 8;
'''
RINV = r"let mut vp_i: usize = 0; while vp_i < \2.len() invariant vp_i <= \2.len(), item.v() is List, cells(\2@) == item.v()->List_0, resp@ == b0.push(14u8) + numeral(\2@.len() as int).push(10u8) + sent_all(cells(\2@), vp_i as nat) decreases \2.len() - vp_i { let \1__ = &\2[vp_i]; proof { assert(cells(\2@)[vp_i as int] == \1__.v()); assert(item.v()->List_0[vp_i as int] == \1__.v()); } vp_i = vp_i + 1; let \1 = \1__;"
ITEMS = [Raw(SPEC), Raw(SPEC_R),
 Fn(SE, "encode_cell", sub=[(r"IntegerRepr::scoped\(((?:[^()]|\([^()]*\))*), \|b\| resp\.extend\(b\)\)", r"vp_num(resp, \1)"), (r"resp\.extend\(((?:\w|\.|\(\))*)\.to_string\(\)\.as_bytes\(\)\)", r"vp_ftext(resp, \1)"), (r"\bresp\.extend\((\w+)\);", r"vp_extend(resp, \1);"),
        (r"\.read_list\(\)\.read\(\)", ".read_list()"), (r"let (\w+) = item\.read_list\(\);\s*let (\w+) = \1\.read\(\);", r"let \2 = item.read_list();"), (r"(\w+(?:\.\w+\(\))*) as (?:u8|_)(?=\))", lambda m: "(if %s { 1u8 } else { 0u8 })" % m.group(1)), (r"for (\w+) in (\w+)\.iter\(\) \{", RINV)],
    loops_optional=True, closures_optional=True, hints={"start": "let ghost b0 = resp@; proof { item.tag_ok(); }"},
    spec="ensures final(resp)@ =~= old(resp)@ + sent(item.v()) decreases item.v()")]
