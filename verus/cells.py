"""P13, P14: writing and reading one value (storage/common_encoding/r1/obj.rs, module cell), for every value and every sequence of bytes

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * the lock around a list of cells (`read_list().read()` becomes the list);
 * the generic parameters of decode_element are instantiated with Datacell / CanYieldDict and the scanner over a byte block (the two
   instantiations are two extracted functions); `EY::f` becomes the extracted associated function of that type;
 * `for x in l.iter()` becomes a loop over the indices.
"""
OB = "server/src/engine/storage/common_encoding/r1/obj.rs"
SPEC = r'''
broadcast use {vstd::seq_lib::group_seq_properties, group_le8};
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum TagClass { Bool, UnsignedInt, SignedInt, Float, Bin, Str, List }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct TagSelector { pub d: u8 }
impl TagSelector {
    pub open spec fn class(self) -> TagClass { if self.d == 0 { TagClass::Bool } else if self.d <= 4 { TagClass::UnsignedInt } else if self.d <= 8 { TagClass::SignedInt } else if self.d <= 10 { TagClass::Float } else if self.d == 11 { TagClass::Bin } else if self.d == 12 { TagClass::Str } else { TagClass::List } }
    pub fn value_u8(&self) -> (r: u8) ensures r == self.d { self.d }
    /// requires what the unsafe function requires: one of the 14 types
    pub fn from_raw(d: u8) -> (r: Self) requires d <= 13 ensures r.d == d { TagSelector { d } }
    pub fn into_full(self) -> (r: FullTag) requires self.d <= 13 ensures r.sel == self { FullTag { sel: self } }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct FullTag { pub sel: TagSelector }
impl FullTag {
    pub fn tag_selector(&self) -> (r: TagSelector) ensures r == self.sel { self.sel }
    #[verifier::external_body] pub fn tag_class(&self) -> (r: TagClass) ensures r == self.sel.class() { unimplemented!() }
}
// ---- values: the oracle
/// a stored value: the number of its type (0: null) and what it holds
pub enum V { Null, Bool(bool), Qw(u8, u64), Bytes(u8, Seq<u8>), List(Seq<V>) }
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
pub open spec fn tag_of(v: V) -> u8 { match v { V::Null => 0, V::Bool(_) => 1, V::Qw(t, _) => t, V::Bytes(t, _) => t, V::List(_) => 14 } }
pub open spec fn wf(v: V) -> bool decreases v { match v { V::Null => true, V::Bool(_) => true, V::Qw(t, _) => 2 <= t <= 11, V::Bytes(t, b) => (t == 12 || (t == 13 && utf8(b))) && b.len() <= u64::MAX, V::List(s) => s.len() <= u64::MAX && forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) } }
pub use le::*;
pub mod le { use vstd::prelude::*;
/// eight bytes, little endian. TRUSTED: a bijection (std to_le_bytes / from_le_bytes)
pub uninterp spec fn le8(x: u64) -> Seq<u8>;
pub uninterp spec fn un8(s: Seq<u8>) -> u64;
pub broadcast axiom fn le8_is(x: u64) ensures (#[trigger] le8(x)).len() == 8, un8(le8(x)) == x;
pub broadcast axiom fn un8_is(s: Seq<u8>) requires s.len() == 8 ensures le8(#[trigger] un8(s)) == s;
pub broadcast group group_le8 { le8_is, un8_is }
}
/// the bytes of a value after its type byte, and of a sequence of values with their type bytes
pub open spec fn body(v: V) -> Seq<u8> decreases v, 0nat { match v { V::Null => Seq::empty(), V::Bool(b) => seq![if b { 1u8 } else { 0u8 }], V::Qw(_, x) => le8(x), V::Bytes(_, b) => le8(b.len() as u64) + b, V::List(s) => le8(s.len() as u64) + items(s, s.len()) } }
pub open spec fn full(v: V) -> Seq<u8> decreases v, 1nat { seq![tag_of(v)] + body(v) }
pub open spec fn items(s: Seq<V>, n: nat) -> Seq<u8> decreases s, n when n <= s.len() { if n == 0 { Seq::empty() } else { items(s, (n - 1) as nat) + full(s[n - 1]) } }
pub open spec fn min_len(t: u8) -> nat { if t == 0 { 0 } else if t == 1 { 1 } else { 8 } }
/// the bytes of the first n values are a prefix of those of the first m
proof fn items_prefix(s: Seq<V>, n: nat, m: nat) requires n <= m <= s.len() ensures items(s, n).len() <= items(s, m).len(), items(s, m).take(items(s, n).len() as int) =~= items(s, n) decreases m {
    if n < m { items_prefix(s, n, (m - 1) as nat); }
}
proof fn items_same(s: Seq<V>, t: Seq<V>, n: nat) requires n <= s.len(), n <= t.len(), s.take(n as int) =~= t.take(n as int) ensures items(s, n) == items(t, n) decreases n {
    if n > 0 { assert(s.take(n as int)[n - 1] == t.take(n as int)[n - 1]); assert(s.take(n - 1) =~= s.take(n as int).take(n - 1)); assert(t.take(n - 1) =~= t.take(n as int).take(n - 1)); items_same(s, t, (n - 1) as nat); }
}
proof fn starts_cut(a: Seq<u8>, p: Seq<u8>, q: Seq<u8>) requires starts(a, p + q) ensures starts(a, p), starts(a.skip(p.len() as int), q) {
    assert(a.take(p.len() as int) =~= a.take((p + q).len() as int).take(p.len() as int)); assert((p + q).take(p.len() as int) =~= p);
    assert(a.skip(p.len() as int).take(q.len() as int) =~= a.take((p + q).len() as int).skip(p.len() as int)); assert((p + q).skip(p.len() as int) =~= q);
}
proof fn starts_both(a: Seq<u8>, p: Seq<u8>, q: Seq<u8>) requires starts(a, p), starts(a, q), p.len() == q.len() ensures p == q {}
/// two values of one type that begin the same bytes are the same value
pub proof fn uniq(v: V, w: V, a: Seq<u8>) requires wf(v), wf(w), tag_of(v) == tag_of(w), starts(a, body(v)), starts(a, body(w)) ensures v == w decreases v {
    match (v, w) {
        (V::Qw(_, x), V::Qw(_, y)) => { starts_both(a, le8(x), le8(y)); le8_is(x); le8_is(y); }
        (V::Bytes(_, b), V::Bytes(_, c)) => {
            starts_cut(a, le8(b.len() as u64), b); starts_cut(a, le8(c.len() as u64), c); starts_both(a, le8(b.len() as u64), le8(c.len() as u64)); le8_is(b.len() as u64); le8_is(c.len() as u64);
            starts_both(a.skip(8), b, c);
        }
        (V::List(s), V::List(t)) => {
            starts_cut(a, le8(s.len() as u64), items(s, s.len())); starts_cut(a, le8(t.len() as u64), items(t, t.len())); starts_both(a, le8(s.len() as u64), le8(t.len() as u64)); le8_is(s.len() as u64); le8_is(t.len() as u64);
            assert(s.len() == t.len());
            uniq_items(v, s, t, a.skip(8), s.len());
            assert(s.take(s.len() as int) =~= s); assert(t.take(t.len() as int) =~= t);
        }
        (V::Bool(x), V::Bool(y)) => { starts_both(a, body(v), body(w)); assert(body(v)[0] == body(w)[0]); }
        _ => {}
    }
}
proof fn uniq_items(v: V, s: Seq<V>, t: Seq<V>, a: Seq<u8>, n: nat)
    requires v == V::List(s), wf(v), forall|i: int| 0 <= i < t.len() ==> wf(#[trigger] t[i]), n <= s.len(), n <= t.len(), starts(a, items(s, n)), starts(a, items(t, n)) ensures s.take(n as int) =~= t.take(n as int) decreases v, n
{
    if n > 0 {
        let m = (n - 1) as nat;
        starts_cut(a, items(s, m), full(s[m as int])); starts_cut(a, items(t, m), full(t[m as int]));
        uniq_items(v, s, t, a, m);
        items_same(s, t, m);
        let b = a.skip(items(s, m).len() as int);
        starts_cut(b, seq![tag_of(s[m as int])], body(s[m as int])); starts_cut(b, seq![tag_of(t[m as int])], body(t[m as int]));
        assert(b[0] == b.take(1)[0]); assert(seq![tag_of(s[m as int])][0] == b[0] && seq![tag_of(t[m as int])][0] == b[0]);
        uniq(s[m as int], t[m as int], b.skip(1));
        assert(s.take(n as int) =~= s.take(m as int).push(s[m as int])); assert(t.take(n as int) =~= t.take(m as int).push(t[m as int]));
    }
}
/// a list t whose bytes begin `pre`, of which the values k have been read already, leaving `rest`
proof fn list_pre(pre: Seq<u8>, t: Seq<V>, k: Seq<V>, rest: Seq<u8>)
    requires wf(V::List(t)), wf(V::List(k)), k.len() <= t.len(), pre =~= items(k, k.len()) + rest, starts(pre, items(t, t.len()))
    ensures t.take(k.len() as int) =~= k, k.len() < t.len() ==> rest.len() >= 1 && rest[0] == tag_of(t[k.len() as int]) && starts(rest.skip(1), body(t[k.len() as int]))
{
    let n = k.len();
    items_prefix(t, n, t.len());
    let all = items(t, t.len());
    assert(starts(pre, items(t, n))) by { assert(pre.take(items(t, n).len() as int) =~= pre.take(all.len() as int).take(items(t, n).len() as int)); }
    uniq_items(V::List(t), t, k, pre, n);
    assert(k.take(n as int) =~= k);
    if n < t.len() {
        items_same(t, k, n);
        items_prefix(t, (n + 1) as nat, t.len());
        let upto = items(t, (n + 1) as nat);
        assert(starts(pre, upto)) by { assert(pre.take(upto.len() as int) =~= pre.take(all.len() as int).take(upto.len() as int)); }
        starts_cut(pre, items(t, n), full(t[n as int]));
        assert(pre.skip(items(t, n).len() as int) =~= rest);
        starts_cut(rest, seq![tag_of(t[n as int])], body(t[n as int]));
        assert(rest.take(1)[0] == seq![tag_of(t[n as int])][0]);
    }
}
proof fn cells_push(l: Seq<Datacell>, c: Datacell) ensures cells(l.push(c)) =~= cells(l).push(c.v()), items(cells(l.push(c)), (l.len() + 1) as nat) == items(cells(l), l.len()) + full(c.v()) {
    assert(cells(l.push(c)).take(l.len() as int) =~= cells(l).take(l.len() as int)); items_same(cells(l.push(c)), cells(l), l.len());
}
/// what reading a value of the type d does to the bytes: the value read, if any, is of that type, and its bytes are exactly those consumed
pub open spec fn dec_ok(r: Result<Datacell, ()>, d: u8, pre: Seq<u8>, post: Seq<u8>) -> bool { match r {
    Ok(c) => wf(c.v()) && tag_of(c.v()) == d && pre =~= body(c.v()) + post,
    Err(_) => true } }
proof fn min_is(v: V) requires wf(v) ensures body(v).len() >= min_len(tag_of(v)) {}
/// `b` starts with `p`
pub open spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.take(p.len() as int) =~= p }

// ---- cells. ASSUMED: the accessors and constructors (decided under P09); the view of a cell is the value it holds
#[verifier::external_body] pub struct Datacell { x: u8 }
impl Datacell {
    pub uninterp spec fn v(&self) -> V;
    /// the type of the cell (also of a null)
    pub uninterp spec fn t(&self) -> FullTag;
    #[verifier::external_body] pub proof fn tag_ok(&self) ensures self.t().sel.d <= 13, !(self.v() is Null) ==> tag_of(self.v()) == self.t().sel.d + 1, wf(self.v()) {}
    #[verifier::external_body] pub fn tag(&self) -> (r: FullTag) ensures r == self.t() { unimplemented!() }
    #[verifier::external_body] pub fn is_init(&self) -> (r: bool) ensures r == !(self.v() is Null) { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.v() is Null) { unimplemented!() }
    #[verifier::external_body] pub fn read_bool(&self) -> (r: bool) requires self.v() is Bool ensures r == self.v()->Bool_0 { unimplemented!() }
    #[verifier::external_body] pub fn read_uint(&self) -> (r: u64) requires self.v() is Qw ensures r == self.v()->Qw_1 { unimplemented!() }
    #[verifier::external_body] pub fn read_bin(&self) -> (r: &[u8]) requires self.v() is Bytes ensures r@ == self.v()->Bytes_1 { unimplemented!() }
    #[verifier::external_body] pub fn read_list(&self) -> (r: &Vec<Datacell>) requires self.v() is List ensures cells(r@) == self.v()->List_0 { unimplemented!() }
    #[verifier::external_body] pub fn null() -> (r: Self) ensures r.v() == V::Null { unimplemented!() }
    #[verifier::external_body] pub fn new_bool(b: bool) -> (r: Self) ensures r.v() == V::Bool(b) { unimplemented!() }
    #[verifier::external_body] pub fn new_qw(x: u64, t: FullTag) -> (r: Self) requires 1 <= t.sel.d <= 10 ensures r.v() == V::Qw((t.sel.d + 1) as u8, x) { unimplemented!() }
    #[verifier::external_body] pub fn new_bin(b: Box<[u8]>) -> (r: Self) ensures r.v() == V::Bytes(12, b@) { unimplemented!() }
    #[verifier::external_body] pub fn new_list(l: Vec<Datacell>) -> (r: Self) ensures r.v() == V::List(cells(l@)) { unimplemented!() }
}
pub open spec fn cells(s: Seq<Datacell>) -> Seq<V> { s.map_values(|c: Datacell| c.v()) }
#[verifier::external_body] fn vp_boxed(a: Vec<u8>) -> (r: Box<[u8]>) ensures r@ == a@ { a.into() }
/// TRUSTED: String::from_utf8 accepts exactly the valid encodings, and keeps the bytes
#[verifier::external_body] fn vp_str_cell(block: Vec<u8>) -> (r: Result<Datacell, ()>) ensures (match r { Ok(c) => utf8(block@) && c.v() == V::Bytes(13, block@), Err(_) => !utf8(block@) }) { unimplemented!() }
pub type VecU8 = Vec<u8>;
fn vp_min(a: u8, b: u8) -> (r: u8) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
// ---- the buffer. TRUSTED: std Vec::extend
pub trait VpBytes { spec fn bv(&self) -> Seq<u8>; }
pub struct Le8 { x: u64 }
impl VpBytes for Le8 { closed spec fn bv(&self) -> Seq<u8> { le8(self.x) } }
impl VpBytes for &[u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
fn vp_le8(x: u64) -> (r: Le8) ensures r.bv() == le8(x) { Le8 { x } }
#[verifier::external_body] fn vp_extend<B: VpBytes>(buf: &mut Vec<u8>, b: B) ensures final(buf)@ == old(buf)@ + b.bv() { unimplemented!() }
// ---- the scanner. TRUSTED here: its contract is the one proved in place under P14 (mem/scanner.rs); the preconditions are those of the unsafe functions
#[verifier::external_body] pub struct Src { x: u8 }
impl Src {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn has_remaining(&self, n: usize) -> (r: bool) ensures r == (self.rest().len() >= n) { unimplemented!() }
    #[verifier::external_body] pub fn read_next_byte(&mut self) -> (r: Result<u8, ()>) requires old(self).rest().len() >= 1 ensures r == Ok::<u8, ()>(old(self).rest()[0]), final(self).rest() == old(self).rest().skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn read_next_u64_le(&mut self) -> (r: Result<u64, ()>) requires old(self).rest().len() >= 8 ensures r == Ok::<u64, ()>(un8(old(self).rest().take(8))), final(self).rest() == old(self).rest().skip(8) { unimplemented!() }
    #[verifier::external_body] pub fn read_next_variable_block(&mut self, n: usize) -> (r: Result<Vec<u8>, ()>)
        ensures (match r { Ok(b) => old(self).rest().len() >= n && b@ == old(self).rest().take(n as int) && final(self).rest() == old(self).rest().skip(n as int), Err(_) => old(self).rest().len() < n && final(self).rest() == old(self).rest() }) { unimplemented!() }
}
'''
SPEC2 = r'''
impl StorageCellTypeID {
    pub open spec fn d(self) -> u8 { match self { Self::Null => 0, Self::Bool => 1, Self::UInt8 => 2, Self::UInt16 => 3, Self::UInt32 => 4, Self::UInt64 => 5, Self::SInt8 => 6, Self::SInt16 => 7, Self::SInt32 => 8, Self::SInt64 => 9, Self::Float32 => 10, Self::Float64 => 11, Self::Bin => 12, Self::Str => 13, Self::List => 14, Self::Dict => 15 } }
    // TRUSTED: derive(EnumMethods, TaggedEnum): the discriminant as written, and back
    #[verifier::external_body] pub fn value_u8(self) -> (r: u8) ensures r == self.d() { unimplemented!() }
    #[verifier::external_body] pub fn try_from_raw(d: u8) -> (r: Option<Self>) ensures (match r { Some(x) => x.d() == d, None => d > 15 }) { unimplemented!() }
}
'''
ENC = [(r"\bbuf\.extend\(([^;]*?)\.u64_bytes_le\(\)\);", r"vp_extend(buf, vp_le8(\1 as u64));"), (r"\bbuf\.extend\(([^;]*?)\.to_le_bytes\(\)\)(?=[,;])", r"vp_extend(buf, vp_le8(\1))"), (r"\bbuf\.extend\((\w+)\);", r"vp_extend(buf, \1);"),
       (r"\.read_list\(\)\.read\(\)", ".read_list()"), (r"TagClass::\*", "TagClass::{Bool, UnsignedInt, SignedInt, Float, Bin, Str, List}"), (r"(\w+(?:\.\w+\(\))*) as u8", r"(if \1 { 1u8 } else { 0u8 })"),
       (r"for (\w+) in (\w+)\.iter\(\) \{", r"let mut vp_i: usize = 0; while vp_i < \2.len() invariant vp_i <= \2.len(), dc.v() is List, cells(\2@) == dc.v()->List_0, buf@ == b0 + le8(\2@.len() as u64) + items(cells(\2@), vp_i as nat) decreases \2.len() - vp_i { let \1 = &\2[vp_i]; proof { assert(cells(\2@)[vp_i as int] == \1.v()); assert(dc.v()->List_0[vp_i as int] == \1.v()); } vp_i = vp_i + 1;")]
DEC = [(r"String::from_utf8\(block\)\.map\(\|s\| Datacell::new_str\(s\.into_boxed_str\(\)\)\)", "vp_str_cell(block)"), (r"block\.into\(\)", "vp_boxed(block)"), (r"vec!\[\]", "Vec::new()")]
def dec(name, ey, okd, cell="decode_cell"):
    return Fn(OB, "cell::decode_element", key=name, attr="#[verifier::rlimit(100)]", free=True, sig_sub=[("fn decode_element<EY: ElementYield, DS: DataSource>", "fn " + name), ("unsafe ", ""), ("&mut DS", "&mut Src"), ("Result<EY::Yield, DS::Error>", "Result<%s, ()>" % ey), ("where\n        DS::Error: From<EY::Error>,\n        DS::Error: From<()>,", "")],
        sub=DEC + [(r"decode_element::<Datacell, DS>\(", cell + "("), (r"EY::(?=[a-z])", {"Datacell": "dc__", "CanYieldDict": "cyd__"}[ey]), (r"EY::CAN_YIELD_DICT", {"Datacell": "false", "CanYieldDict": "true"}[ey])], **okd)

LINV = "invariant s.rest().len() <= at.len(), pre == old(s).rest(), d0 == dscr.d(), tag.sel.d == 13, d0 == 14, at == pre.skip(8), pre.len() >= 8, len == un8(pre.take(8)), l@.len() <= len, wf(V::List(cells(l@))), at == items(cells(l@), l@.len()) + s.rest() decreases len - l@.len()"
BEGIN = "let ghost pre = s.rest(); let ghost d0 = dscr.d(); let ghost at = pre.skip(8);"
INLOOP = "let ghost k0 = cells(l@); proof { assert(at.len() == items(k0, k0.len()).len() + s.rest().len()); }"
UN = r'''
proof fn list_of(pre: Seq<u8>, v: V) requires wf(v), tag_of(v) == 14, pre.len() >= 8, starts(pre, body(v)) ensures v is List, v->List_0.len() == un8(pre.take(8)), starts(pre.skip(8), items(v->List_0, v->List_0.len())) {
    let t = v->List_0; starts_cut(pre, le8(t.len() as u64), items(t, t.len())); le8_is(t.len() as u64);
}
proof fn bytes_of(pre: Seq<u8>, v: V) requires wf(v), v is Bytes, pre.len() >= 8, starts(pre, body(v)) ensures v->Bytes_1.len() == un8(pre.take(8)), starts(pre.skip(8), v->Bytes_1), pre.skip(8).take(un8(pre.take(8)) as int) == v->Bytes_1 {
    let t = v->Bytes_1; starts_cut(pre, le8(t.len() as u64), t); le8_is(t.len() as u64); assert(pre.skip(8).take(t.len() as int) =~= t);
}
pub enum CanYieldDict { Data(Datacell), Dict }
global size_of usize == 8;
'''
SPEC_DEC = "requires old(s).rest().len() >= min_len(dscr.d()) ensures dec_ok(r, dscr.d(), old(s).rest(), final(s).rest()), dscr.d() == 15 ==> r is Err decreases old(s).rest().len()"
SPEC_CYD = """requires old(s).rest().len() >= min_len(dscr.d()) ensures dscr.d() == 15 ==> r == Ok::<CanYieldDict, ()>(CanYieldDict::Dict) && final(s).rest() == old(s).rest(), !(r is Ok && r->Ok_0 is Dict) || dscr.d() == 15,
    dscr.d() != 15 ==> (match r { Ok(CanYieldDict::Data(c)) => dec_ok(Ok(c), dscr.d(), old(s).rest(), final(s).rest()), Ok(CanYieldDict::Dict) => false, Err(_) => dec_ok(Err(()), dscr.d(), old(s).rest(), final(s).rest()) })"""
DEC_KW = dict(closures_optional=True, loops={0: LINV}, hints={"start": BEGIN, ("loop", 0, "start"): INLOOP, ("loop", 0, "end"): "proof { cells_push(l@.drop_last(), l@.last()); assert(l@.drop_last().push(l@.last()) =~= l@); assert(cells(l@.drop_last()) =~= k0); }"})
# reading back: if the bytes begin with a value of that type, that value is read and the rest is left
COMP = r'''
pub open spec fn dec_back(r: Result<Datacell, ()>, d: u8, pre: Seq<u8>, post: Seq<u8>) -> bool { forall|v: V| wf(v) && tag_of(v) == d && #[trigger] starts(pre, body(v)) ==> r is Ok && r->Ok_0.v() == v && post == pre.skip(body(v).len() as int) }
/// the values t of which k have been read: k are the first of them, and the rest begins with the bytes of the next
pub open spec fn midway(t: Seq<V>, k: Seq<V>, at: Seq<u8>, rest: Seq<u8>) -> bool { k.len() <= t.len() && t.take(k.len() as int) == k && items(t, k.len()).len() <= at.len() && rest == at.skip(items(t, k.len()).len() as int) }
proof fn next_is(v: V, k: Seq<V>, at: Seq<u8>, rest: Seq<u8>) requires v is List, wf(v), starts(at, items(v->List_0, v->List_0.len())), midway(v->List_0, k, at, rest)
    ensures k.len() < v->List_0.len() ==> ({ let w = v->List_0[k.len() as int]; wf(w) && tag_of(w) <= 14 && rest.len() >= 1 && rest[0] == tag_of(w) && starts(rest.skip(1), body(w)) && rest.skip(1).len() >= min_len(tag_of(w))
        && midway(v->List_0, k.push(w), at, rest.skip(1).skip(body(w).len() as int)) })
{
    let t = v->List_0; let n = k.len();
    if n < t.len() {
        let w = t[n as int];
        assert(wf(w));
        min_is(w);
        items_prefix(t, (n + 1) as nat, t.len());
        let upto = items(t, (n + 1) as nat); let all = items(t, t.len());
        assert(starts(at, upto)) by { assert(at.take(upto.len() as int) =~= at.take(all.len() as int).take(upto.len() as int)); }
        starts_cut(at, items(t, n), full(w));
        starts_cut(rest, seq![tag_of(w)], body(w));
        assert(rest.take(1)[0] == seq![tag_of(w)][0]);
        assert(t.take((n + 1) as int) =~= k.push(w));
        assert(rest.skip(1).skip(body(w).len() as int) =~= at.skip(upto.len() as int));
    }
}
proof fn starts_len(v: V, pre: Seq<u8>) requires starts(pre, body(v)) ensures pre.len() >= body(v).len() {}
'''
CINV = "invariant pre == old(s).rest(), d0 == dscr.d(), tag.sel.d == 13, d0 == 14, at == pre.skip(8), pre.len() >= 8, len == un8(pre.take(8)), l@.len() <= len, s.rest().len() <= at.len(), forall|v: V| wf(v) && tag_of(v) == d0 && #[trigger] starts(pre, body(v)) ==> v is List && v->List_0.len() == len && starts(at, items(v->List_0, v->List_0.len())) && midway(v->List_0, cells(l@), at, s.rest()) decreases len - l@.len()"
CFACT = "let ghost r0 = s.rest(); let ghost k0 = cells(l@); proof { assert forall|v: V| wf(v) && tag_of(v) == d0 && #[trigger] starts(pre, body(v)) implies v is List && v->List_0.len() == len && starts(at, items(v->List_0, v->List_0.len())) && midway(v->List_0, k0, at, r0) && (k0.len() < v->List_0.len() ==> ({ let w = v->List_0[k0.len() as int]; wf(w) && tag_of(w) <= 14 && r0.len() >= 1 && r0[0] == tag_of(w) && starts(r0.skip(1), body(w)) && r0.skip(1).len() >= min_len(tag_of(w)) && midway(v->List_0, k0.push(w), at, r0.skip(1).skip(body(w).len() as int)) })) by { next_is(v, k0, at, r0); } }"
CPRE = "proof { assert forall|v: V| wf(v) && tag_of(v) == d0 && #[trigger] starts(pre, body(v)) implies v is List && v->List_0.len() == len && starts(at, items(v->List_0, v->List_0.len())) && midway(v->List_0, cells(l@), at, s.rest()) by { list_of(pre, v); assert(cells(l@) =~= Seq::empty()); assert(v->List_0.take(0) =~= Seq::empty()); assert(at.skip(0) =~= at); } }"
CDONE = CFACT + " proof { assert forall|v: V| wf(v) && tag_of(v) == d0 && #[trigger] starts(pre, body(v)) implies l@.len() == len && cells(l@) == v->List_0 && s.rest() == pre.skip(body(v).len() as int) by { assert(v->List_0.take(len as int) =~= v->List_0); assert(pre.skip(8).skip(items(v->List_0, v->List_0.len()).len() as int) =~= pre.skip(body(v).len() as int)); } }"
SPEC_CBACK = "requires old(s).rest().len() >= min_len(dscr.d()) ensures dec_back(r, dscr.d(), old(s).rest(), final(s).rest()), final(s).rest().len() <= old(s).rest().len() decreases old(s).rest().len()"
SPEC_CYBACK = "requires old(s).rest().len() >= min_len(dscr.d()) ensures dscr.d() == 15 ==> r == Ok::<CanYieldDict, ()>(CanYieldDict::Dict) && final(s).rest() == old(s).rest(), dscr.d() != 15 ==> (match r { Ok(CanYieldDict::Data(c)) => dec_back(Ok(c), dscr.d(), old(s).rest(), final(s).rest()), Ok(CanYieldDict::Dict) => false, Err(_) => dec_back(Err(()), dscr.d(), old(s).rest(), final(s).rest()) })"
CBEGIN = """let ghost pre = s.rest(); let ghost d0 = dscr.d(); let ghost at = pre.skip(8);
proof { assert forall|v: V| wf(v) && tag_of(v) == d0 && #[trigger] starts(pre, body(v)) implies pre.len() >= body(v).len() && body(v).len() >= min_len(d0) && (d0 == 0 ==> v == V::Null && body(v).len() == 0) && (d0 == 1 ==> v is Bool && pre[0] == body(v)[0] && body(v).len() == 1) && (2 <= d0 <= 11 ==> v == V::Qw(d0, un8(pre.take(8))) && body(v).len() == 8)
        && (d0 == 12 || d0 == 13 ==> v is Bytes && v->Bytes_1.len() == un8(pre.take(8)) && starts(at, v->Bytes_1) && at.take(un8(pre.take(8)) as int) == v->Bytes_1 && (d0 == 13 ==> utf8(v->Bytes_1)) && at.skip(v->Bytes_1.len() as int) == pre.skip(body(v).len() as int))
    by { min_is(v); if d0 == 1 { assert(pre.take(1)[0] == body(v)[0]); } if 2 <= d0 <= 11 { assert(pre.take(8) =~= body(v)); le8_is(v->Qw_1); } if d0 == 12 || d0 == 13 { bytes_of(pre, v); assert(at.skip(v->Bytes_1.len() as int) =~= pre.skip(body(v).len() as int)); } }
    assert(pre.skip(0) =~= pre); }"""
BACK_KW = dict(closures_optional=True, loops={0: CINV}, hints={"start": CBEGIN, ("loop", 0, "before"): CPRE, ("loop", 0, "start"): CFACT, ("loop", 0, "end"): "proof { cells_push(l@.drop_last(), l@.last()); assert(l@.drop_last().push(l@.last()) =~= l@); assert(cells(l@.drop_last()) =~= k0); }", ("loop", 0, "after"): CDONE})
ITEMS = [
 Raw(SPEC), Ty(OB, "cell::StorageCellTypeID", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]"), Raw(SPEC2),
 Fn(OB, "cell::StorageCellTypeID::expect_atleast", sub=[(r"\b(\w+)\.min\(", r"vp_min(\1, ")], spec="ensures r == min_len(d)"),
 Fn(OB, "cell::StorageCellTypeID::into_selector", sig_sub=[("unsafe ", "")], spec="requires 1 <= self.d() <= 14 ensures r.d == self.d() - 1"),
 Fn(OB, "cell::encode_tag", sub=ENC, spec="ensures r == tag_of(dc.v())", hints={"start": "dc.tag_ok();"}),
 Fn(OB, "cell::encode_cell", sub=ENC, loops_optional=True, spec="ensures final(buf)@ == old(buf)@ + body(dc.v()) decreases dc.v(), 0nat", hints={"start": "let ghost b0 = buf@; proof { dc.tag_ok(); }"}),
 Fn(OB, "cell::encode", sub=ENC, spec="ensures final(buf)@ == old(buf)@ + full(dc.v()) decreases dc.v(), 1nat"),
 Raw(UN),
 *[Fn(OB, "cell::<%s as ElementYield>::%s" % (ty, f), free=True, sig_sub=[("fn " + f, "fn " + px + f), ("Result<Self::Yield, Self::Error>", "Result<%s, ()>" % ty)], spec=sp) for ty, px in (("Datacell", "dc__"), ("CanYieldDict", "cyd__")) for f, sp in
   [("error", "ensures r is Err"), ("yield_data", "ensures r == Ok::<%s, ()>(%s)" % (ty, "dc" if ty == "Datacell" else "CanYieldDict::Data(dc)"))] + ([("yield_dict", "ensures r == Ok::<CanYieldDict, ()>(CanYieldDict::Dict)")] if ty == "CanYieldDict" else [])],
 Raw("fn dc__yield_dict() -> (r: Result<Datacell, ()>) requires false { Err(()) }"),
 dec("decode_cell", "Datacell", dict(spec=SPEC_DEC, **DEC_KW)),
 dec("decode_or_dict", "CanYieldDict", dict(spec=SPEC_CYD, **DEC_KW)),
 Raw(COMP),
 dec("read_back_cell", "Datacell", dict(spec=SPEC_CBACK, **BACK_KW), "read_back_cell"),
 dec("read_back_or_dict", "CanYieldDict", dict(spec=SPEC_CYBACK, **BACK_KW), "read_back_cell"),
]
