"""P06: the check of a value against the declared type of a column (core/model/mod.rs, Field; data/tag.rs), for every type and every value

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * the lock around a list of cells (`read_list().write()` becomes the list);
 * the table of functions VTFN becomes a function that matches on the index: its entries are taken from the source on every run;
 * `&x[1..]` and `&mut l[i]` become calls with the contracts of slices; `as_array![a, ..]` is written out;
 * the trace of the tests (`layertrace`) is dropped; the comparison of floats is uninterpreted (`fl_in`, decided under P06 by Kani).
"""
import re
include("resp")
MM, TG = "server/src/engine/core/model/mod.rs", "server/src/engine/data/tag.rs"
FIELDS = r'''
// ---- values without the width of their type (a cell of an altered column may still carry the narrower tag)
pub open spec fn wide(v: V) -> V { match v { V::Qw(t, x) => V::Qw(if t <= 5 { 5u8 } else if t <= 9 { 9u8 } else { 11u8 }, x), _ => v } }
pub open spec fn class_of(v: V) -> Option<TagClass> { match v { V::Null => None, V::Bool(_) => Some(TagClass::Bool), V::Qw(t, _) => Some(if t <= 5 { TagClass::UnsignedInt } else if t <= 9 { TagClass::SignedInt } else { TagClass::Float }),
    V::Bytes(t, _) => Some(if t == 12 { TagClass::Bin } else { TagClass::Str }), V::List(_) => Some(TagClass::List) } }
/// the class a cell says it has: a null carries the tag Bool. ASSUMED: its only constructor is Datacell::null (P09)
pub open spec fn kind_of(v: V) -> TagClass { match class_of(v) { Some(c) => c, None => TagClass::Bool } }
pub open spec fn cno(c: TagClass) -> nat { match c { TagClass::Bool => 0, TagClass::UnsignedInt => 1, TagClass::SignedInt => 2, TagClass::Float => 3, TagClass::Bin => 4, TagClass::Str => 5, TagClass::List => 6 } }
// TRUSTED: derive(EnumMethods)
impl TagClass { #[verifier::external_body] pub fn value_word(&self) -> (r: usize) ensures r == cno(*self) { unimplemented!() } }
impl TagSelector { pub fn value_word(&self) -> (r: usize) ensures r == self.d { self.d as usize } }
/// a float lies within the limits of its width. ASSUMED: core's comparison of floats (decided under P06 by Kani)
pub uninterp spec fn fl_in(d: u8, bits: u64) -> bool;
impl Datacell {
    pub open spec fn d(&self) -> V { wide(self.v()) }
    /// the unsafe function: the tag must be of the class of the value
    #[verifier::external_body] pub fn set_tag(&mut self, t: FullTag) requires class_of(old(self).v()) == Some(t.sel.class()) ensures final(self).t() == t, wide(final(self).v()) == wide(old(self).v()), class_of(final(self).v()) == class_of(old(self).v()) { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: TagClass) ensures r == kind_of(self.v()) { unimplemented!() }
}
pub struct UIntSpec(pub FullTag);
pub struct SIntSpec(pub FullTag);
pub struct FloatSpec(pub FullTag);
impl UIntSpec { pub fn from_full(f: FullTag) -> (r: Self) ensures r.0 == f { UIntSpec(f) } }
impl SIntSpec { pub fn from_full(f: FullTag) -> (r: Self) ensures r.0 == f { SIntSpec(f) } }
impl FloatSpec { pub fn from_full(f: FullTag) -> (r: Self) ensures r.0 == f { FloatSpec(f) }
    #[verifier::external_body] pub fn check(&self, f: VpF) -> (r: bool) requires 9 <= self.0.sel.d <= 10 ensures r == fl_in(self.0.sel.d, f.bits()) { unimplemented!() } }
// ---- the oracle: which values a type admits, and how they are stored
#[derive(Clone, Copy)] pub struct Layer { pub tag: FullTag }
impl Layer { pub fn tag(&self) -> (r: FullTag) ensures r == self.tag { self.tag } pub open spec fn class(self) -> TagClass { self.tag.sel.class() } }
pub open spec fn s_range(d: u8, i: i64) -> bool { if d == 5 { -0x80 <= i <= 0x7f } else if d == 6 { -0x8000 <= i <= 0x7fff } else if d == 7 { -0x8000_0000 <= i <= 0x7fff_ffff } else { true } }
pub open spec fn in_range(d: u8, x: u64) -> bool {
    if d == 1 { x <= 0xff } else if d == 2 { x <= 0xffff } else if d == 3 { x <= 0xffff_ffff } else if d == 4 { true }
    else if d <= 8 { s_range(d, x as i64) }
    else { fl_in(d, x) } }
/// a single value that is not a list
pub open spec fn ok1(l: Layer, v: V) -> bool { kind_of(v) == l.class() && (match v { V::Qw(_, x) => in_range(l.tag.sel.d, x), _ => true }) }
pub open spec fn out1(l: Layer, v: V) -> V { match v { V::Qw(_, x) => V::Qw((l.tag.sel.d + 1) as u8, x), _ => v } }
/// a value of the type described by the layers: a list holds values of the type described by the layers below
pub open spec fn ok(ls: Seq<Layer>, v: V) -> bool decreases ls.len() { ls.len() > 0 && match v { V::List(s) => ls[0].class() == TagClass::List && forall|i: int| 0 <= i < s.len() ==> ok(ls.skip(1), #[trigger] s[i]), _ => ls[0].class() != TagClass::List && ok1(ls[0], v) } }
pub open spec fn out(ls: Seq<Layer>, v: V) -> V decreases ls.len() { if ls.len() == 0 { v } else { match v { V::List(s) => V::List(Seq::new(s.len(), |i: int| out(ls.skip(1), s[i]))), _ => out1(ls[0], v) } } }
/// what a declaration gives (P17): lists of lists of .. something that is not a list, all types known
pub open spec fn wf_ly(ls: Seq<Layer>) -> bool { ls.len() >= 1 && (forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).tag.sel.d <= 13) && (forall|i: int| 0 <= i < ls.len() - 1 ==> (#[trigger] ls[i]).class() == TagClass::List) && ls.last().class() != TagClass::List }
proof fn wf_below(ls: Seq<Layer>) requires wf_ly(ls), ls[0].class() == TagClass::List ensures ls.len() >= 2, wf_ly(ls.skip(1)) { assert(ls.skip(1).last() == ls.last()); assert forall|i: int| 0 <= i < ls.skip(1).len() implies (#[trigger] ls.skip(1)[i]).tag.sel.d <= 13 by { assert(ls.skip(1)[i] == ls[i + 1]); } assert forall|i: int| 0 <= i < ls.skip(1).len() - 1 implies (#[trigger] ls.skip(1)[i]).class() == TagClass::List by { assert(ls.skip(1)[i] == ls[i + 1]); } }
#[verifier::external_body] pub struct Field { x: u8 }
impl Field {
    pub uninterp spec fn ly(&self) -> Seq<Layer>;
    pub uninterp spec fn nullable(&self) -> bool;
    #[verifier::opaque] pub open spec fn wf(&self) -> bool { wf_ly(self.ly()) }
    pub open spec fn class(&self) -> TagClass { self.ly()[0].tag.sel.class() }
    #[verifier::external_body] pub fn layers(&self) -> (r: &[Layer]) ensures r@ == self.ly() { unimplemented!() }
    #[verifier::external_body] pub fn is_nullable(&self) -> (r: bool) ensures r == self.nullable() { unimplemented!() }
}
/// the value stored for v in a column of this field, if it is acceptable
#[verifier::opaque] pub open spec fn conf(f: Field, v: V) -> Option<V> { if v is Null { if f.nullable() { Some(V::Null) } else { None } } else if ok(f.ly(), v) { Some(out(f.ly(), v)) } else { None } }
/// the same for an element of a list column
#[verifier::opaque] pub open spec fn conf_el(f: Field, v: V) -> Option<V> { if f.ly().len() >= 1 && ok(f.ly().skip(1), v) { Some(out(f.ly().skip(1), v)) } else { None } }
proof fn conf_class(f: Field, v: V) requires f.wf() ensures conf(f, v) is Some ==> conf(f, v)->0 is Null || class_of(conf(f, v)->0) == Some(f.class()) { reveal(conf); reveal(Field::wf); if conf(f, v) is Some && !(v is Null) { assert(f.ly()[0].tag.sel.d <= 13); reveal_with_fuel(ok, 2); reveal_with_fuel(out, 2); } }
#[verifier::external_body] fn vp_list_mut(c: &mut Datacell) -> (r: &mut Vec<Datacell>) requires old(c).v() is List ensures cells((*r)@) == old(c).v()->List_0, final(c).v() == V::List(cells((*final(r))@)) { unimplemented!() }
#[verifier::external_body] fn vp_at(v: &mut Vec<Datacell>, i: usize) -> (r: &mut Datacell) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] fn vp_tail<T>(s: &[T]) -> (r: &[T]) requires s@.len() >= 1 ensures r@ == s@.skip(1) { &s[1..] }
'''
def vtfn():
    src, it = find(MM, "VTFN", ("static", "const"))
    t = src[it["span"][0]:it["span"][1]].decode()
    body = re.search(r"=\s*\[([\s\S]*)\]\s*;?\s*$", t)
    if not body: raise Undecided("VTFN is not an array any more")
    ents = [e.strip() for e in re.sub(r"//[^\n]*", "", body.group(1)).split(",\n")]
    ents = [e.rstrip(",").strip() for e in ents if e.strip()]
    arms = []
    for k, e in enumerate(ents):
        if re.fullmatch(r"\w+", e): arms.append("%d => %s(l, d)," % (k, e))
        elif re.fullmatch(r"\|_, _\|\s*(true|false)", e): arms.append("%d => %s," % (k, e.split("|")[-1].strip()))
        else: raise Undecided("entry of VTFN: " + e)
    return """fn vp_vt(i: usize, l: Layer, d: &mut Datacell) -> (r: bool) requires l.tag.sel.d <= 13, i <= 7, i < 7 ==> i == cno(kind_of(old(d).v())) && (i == cno(l.class()) || old(d).v() is Null)
    ensures r == (i < 7 && (old(d).v() is Null || old(d).v() is List || ok1(l, old(d).v()))), r ==> final(d).v() == (if old(d).v() is Null { V::Null } else { out1(l, old(d).v()) })
{ unsafe { match i { %s _ => { assert(false); false } } } }""" % " ".join(arms)
VT = lambda n: Fn(MM, n, sub=LT, spec="requires l.tag.sel.d <= 13, l.class() == TagClass::%s, kind_of(old(dc).v()) == l.class() ensures r == ok1(l, old(dc).v()), r ==> final(dc).v() == out1(l, old(dc).v())" % {"vt_uint": "UnsignedInt", "vt_sint": "SignedInt", "vt_float": "Float"}[n],
    hints={"start": "proof { old(dc).tag_ok(); dc.tag_ok(); }", ("stmt", 2): "proof { dc.tag_ok(); }"})
VC = lambda n: Fn(MM, n, sub=LT, sig_sub=[("_: Layer", "l: Layer"), ("_: &mut Datacell", "dc: &mut Datacell")], spec="ensures r, final(dc).v() == old(dc).v()")
LT = [(r'layertrace\("\w+"\);', "")]
ARR = [(r"as_array!\[([^\]]*)\]", lambda m: "[" + ", ".join(x.strip() + " as u64" for x in m.group(1).split(",") if x.strip()) + "]")]
ARI = [(r"as_array!\[([^\]]*)\]", lambda m: "[" + ", ".join(x.strip() + " as i64" for x in m.group(1).split(",") if x.strip()) + "]")]
FS = LT + [(r"VTFN\[([^\]]*)\]\(", r"vp_vt(\1, "), (r"self\.layers\.", "self.layers()."), (r"self\.layers\[", "self.layers()["),
  (r"&(self\.layers\(\)|layers)\[1\.\.\]", r"vp_tail(\1)"), (r"let list = unsafe \{[\s\S]*?data\.read_list\(\)\s*\};\s*let mut lread = list\.write\(\);", "let lread = vp_list_mut(data); let ghost s0 = lread@; proof { wf_below(ls0); }"), (r"&mut lread\[i\]", "vp_at(lread, i)")]
ITEMS += [Raw(FIELDS), Raw(vtfn(), fn="Field::vt_data_fpath"),
  Const(TG, "UIntSpec::LIM_MAX", sub=ARR), Const(TG, "SIntSpec::LIM_MIN", sub=ARI), Const(TG, "SIntSpec::LIM_MAX", sub=ARI),
  Fn(TG, "UIntSpec::check", spec="requires 1 <= self.0.sel.d <= 4 ensures r == in_range(self.0.sel.d, v)"),
  Fn(TG, "SIntSpec::check", spec="requires 5 <= self.0.sel.d <= 8 ensures r == s_range(self.0.sel.d, i)"),
  VC("vt_bool"), VC("vt_bin"), VC("vt_str"), VC("vt_list"), VT("vt_uint"), VT("vt_sint"), VT("vt_float"),
  Fn(MM, "Field::compute_index", spec="requires self.wf() ensures r == if (dc.v() is Null && !self.nullable()) || (!(dc.v() is Null) && kind_of(dc.v()) != self.class()) { 7 } else { cno(kind_of(dc.v())) }", sub=FS, hints={"start": "proof { reveal(Field::wf); }"}),
  Fn(MM, "Field::vt_data_fpath", spec="requires self.wf() ensures r == (conf(*self, old(data).v()) is Some), r ==> final(data).v() == conf(*self, old(data).v())->0", sub=FS, hints={"start": "proof { reveal(conf); reveal(Field::wf); reveal_with_fuel(ok, 2); reveal_with_fuel(out, 2); }"}),
  Fn(MM, "Field::vt_list_element", spec="requires self.wf(), self.class() == TagClass::List ensures r == (conf_el(*self, old(data).v()) is Some), r ==> final(data).v() == conf_el(*self, old(data).v())->0", sub=FS, hints={"start": "proof { reveal(conf_el); reveal(Field::wf); wf_below(self.ly()); }"}),
  Fn(MM, "Field::rvt_data", attr="#[verifier::loop_isolation(false)]", spec="requires wf_ly(layers@) ensures r == ok(layers@, old(data).v()), r ==> final(data).v() == out(layers@, old(data).v()) decreases layers@.len()", sub=FS, hints={"start": "let ghost ls0 = layers@; let ghost data0 = data.v(); proof { reveal_with_fuel(ok, 2); reveal_with_fuel(out, 2); }", ("loop", 0, "after"): "proof { if okay { assert(cells(lread@) =~= out(ls0, data0)->List_0); assert forall|k: int| 0 <= k < data0->List_0.len() implies ok(ls0.skip(1), #[trigger] data0->List_0[k]) by { assert(data0->List_0[k] == s0[k].v()); } } else { let k = choose|k: int| 0 <= k < s0.len() && !ok(layers@, (#[trigger] s0[k]).v()); assert(data0->List_0[k] == s0[k].v()); assert(!ok(ls0.skip(1), data0->List_0[k])); } }"},
    loops={0: """invariant wf_ly(ls0), layers@.len() < ls0.len(), ls0[0].class() == TagClass::List, layers@ == ls0.skip(1), wf_ly(layers@), data0 is List, cells(s0) == data0->List_0, i <= lread@.len(), lread@.len() == s0.len(),
        forall|k: int| i <= k < s0.len() ==> #[trigger] lread@[k] == s0[k], okay ==> forall|k: int| 0 <= k < i ==> ok(layers@, (#[trigger] s0[k]).v()) && lread@[k].v() == out(layers@, s0[k].v()), !okay ==> exists|k: int| 0 <= k < s0.len() && !ok(layers@, (#[trigger] s0[k]).v()) decreases lread@.len() - i"""}),
]
