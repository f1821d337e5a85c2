"""P17, P18: what a model declaration creates and what an alteration plans (core/model/mod.rs, core/model/alt.rs)

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * `r.iter().all(|id| B)` becomes a block with a loop over the indices of `r` that stops at the first `B` that is false (what `all` is);
 * the iterator chain in ldeltas (`rev`, `zip`, `zip` with the mutable layers) becomes the struct Zip3 below, which hands out the same triples in the same order,
   the place of a mutable layer as its number;
 * the nested functions classeq and interop of ldeltas are lifted to the top, `&` and `|` between pure operands as `&&` and `||`;
 * comparison of selectors (derived Ord) becomes `sel_ge`, the order of their declaration.
"""
import re
MO = "server/src/engine/core/model/mod.rs"
AL = "server/src/engine/core/model/alt.rs"
SY = "server/src/engine/ql/ddl/syn.rs"
CR = "server/src/engine/ql/ddl/crt.rs"
QA = "server/src/engine/ql/ddl/alt.rs"
TG = "server/src/engine/data/tag.rs"
SPEC = r'''
pub enum QueryError { QExecDdlInvalidProperties, QExecDdlInvalidTypeDefinition, QExecDdlModelBadDefinition, QExecDdlModelAlterIllegal, QExecUnknownField }
pub type QueryResult<T> = Result<T, QueryError>;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum TagClass { Bool, UnsignedInt, SignedInt, Float, Bin, Str, List }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum TagUnique { UnsignedInt, SignedInt, Bin, Str, Illegal }
impl TagUnique { pub fn is_unique(&self) -> (r: bool) ensures r == (*self != TagUnique::Illegal) { match self { TagUnique::Illegal => false, _ => true } } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum TagSelector { Bool, UInt8, UInt16, UInt32, UInt64, SInt8, SInt16, SInt32, SInt64, Float32, Float64, Binary, String, List }
/// the order of the selectors: as declared (derived). TRUSTED
pub open spec fn rank(a: TagSelector) -> int { match a { TagSelector::Bool => 0, TagSelector::UInt8 => 1, TagSelector::UInt16 => 2, TagSelector::UInt32 => 3, TagSelector::UInt64 => 4, TagSelector::SInt8 => 5, TagSelector::SInt16 => 6, TagSelector::SInt32 => 7, TagSelector::SInt64 => 8, TagSelector::Float32 => 9, TagSelector::Float64 => 10, TagSelector::Binary => 11, TagSelector::String => 12, TagSelector::List => 13 } }
pub open spec fn sel_ge(a: TagSelector, b: TagSelector) -> bool { rank(a) >= rank(b) }
#[verifier::external_body] fn vp_sel_ge(a: TagSelector, b: TagSelector) -> (r: bool) ensures r == sel_ge(a, b) { unimplemented!() }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Uuid { u: u128 }
impl Uuid { #[verifier::external_body] pub fn new() -> (r: Uuid) { unimplemented!() } }
#[verifier::external_body] pub struct Datacell { x: u8 }
impl Datacell {
    pub uninterp spec fn k(&self) -> TagClass;
    pub uninterp spec fn b(&self) -> bool;
    #[verifier::external_body] pub fn kind(&self) -> (r: TagClass) ensures r == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn bool(&self) -> (r: bool) requires self.k() == TagClass::Bool ensures r == self.b() { unimplemented!() }
}
pub enum DictEntryGeneric { Data(Datacell), Map(DictGeneric) }
#[verifier::external_body] pub struct DictGeneric { x: u8 }
impl DictGeneric {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, DictEntryGeneric>;
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<DictEntryGeneric>) ensures final(self)@ == old(self)@.remove(k@), (match r { Some(v) => old(self)@.dom().contains(k@) && v == old(self)@[k@], None => !old(self)@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::empty()) { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ident<'a> { x: &'a str }
impl<'a> Ident<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct EntityIDRef<'a> { x: &'a str }
#[verifier::external_body] fn vp_to_box(a: &str) -> (r: Box<str>) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_bx_to_vec<T>(a: Box<[T]>) -> (r: Vec<T>) ensures r@ == a@ { a.into_vec() }
#[verifier::external_body] fn vp_slice_of<T>(a: &Box<[T]>) -> (r: &[T]) ensures r@ == a@ { a }
#[verifier::external_body] pub struct RawStr { x: u8 }
impl RawStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn clone(&self) -> (r: RawStr) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] fn vp_raw_eq(a: &RawStr, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub struct PrimaryIndex { x: u8 }
#[verifier::external_body] pub struct DeltaState { x: u8 }
#[verifier::external_body] pub struct ModelPrivate { x: u8 }
impl PrimaryIndex { #[verifier::external_body] pub fn new_empty() -> (r: Self) { unimplemented!() } }
impl DeltaState { #[verifier::external_body] pub fn new_resolved() -> (r: Self) { unimplemented!() } }
impl ModelPrivate {
    #[verifier::external_body] pub fn empty() -> (r: Self) { unimplemented!() }
    /// the memory of the field names: hands out a pointer to a copy of the name
    #[verifier::external_body] pub fn allocate_or_recycle(&mut self, new: &str) -> (r: RawStr) ensures r@ == new@ { unimplemented!() }
}
#[verifier::external_body] pub struct StrSet { x: u8 }
impl StrSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &str) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
// ---- a consumed vector. TRUSTED: std vec::IntoIter, rev, len
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VIter<T> { x: Vec<T> }
impl<T> VIter<T> {
    /// what is still to come
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn of(v: Vec<T>) -> (r: Self) ensures r@ == v@, v@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures (match r { Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() }
}
// ---- the inline vector. ASSUMED: the contract decided under P21
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VInline<const N: usize, T> { x: Vec<T> }
impl<const N: usize, T> VInline<N, T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn at_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
}
'''
SPEC2 = r'''
#[verifier::external_body] fn vp_clone_field(f: &Field) -> (r: Field) ensures r.layers@ == f.layers@, r.nullable == f.nullable { unimplemented!() }
/// the type with this name (decided by Kani: k_names)
pub uninterp spec fn layer_of(name: Seq<char>) -> Option<Layer>;
impl Layer { #[verifier::external_body] pub fn get_layer(ident: &str) -> (r: Option<Layer>) ensures r == layer_of(ident@) { unimplemented!() } }
pub ghost struct F { pub layers: Seq<Layer>, pub nullable: bool }
impl Field { pub open spec fn v(&self) -> F { F { layers: self.layers@, nullable: self.nullable } } }
pub open spec fn is_list(l: Layer) -> bool { l.tag.selector == TagSelector::List }
// ---- the ordered index and the map of fields. ASSUMED: the contract decided under P20; TRUSTED: std HashMap
pub open spec fn in_keys(m: Seq<(Seq<char>, F)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub trait Key { spec fn k(&self) -> Seq<char>; }
impl Key for RawStr { open spec fn k(&self) -> Seq<char> { self@ } }
impl Key for Box<str> { open spec fn k(&self) -> Seq<char> { self@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct Idx<K> { x: Vec<K> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct IdxKeys<'a, K> { x: Vec<&'a K> }
impl<K: Key> Idx<K> {
    pub uninterp spec fn view(&self) -> Seq<(Seq<char>, F)>;
    #[verifier::external_body] pub fn idx_init_cap(n: usize) -> (r: Self) ensures r@ == Seq::<(Seq<char>, F)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<(Seq<char>, F)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<(Seq<char>, F)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn st_insert(&mut self, k: K, v: Field) -> (r: bool) ensures r == !in_keys(old(self)@, k.k()), final(self)@ == (if r { old(self)@.push((k.k(), v.v())) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn st_contains(&self, k: &str) -> (r: bool) ensures r == in_keys(self@, k@) { unimplemented!() }
    #[verifier::external_body] pub fn st_get(&self, k: &str) -> (r: Option<&Field>) ensures (match r { Some(v) => in_keys(self@, k@) && forall|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == k@ ==> self@[i].1 == v.v(), None => !in_keys(self@, k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn get_raw(&self, k: &RawStr) -> (r: Option<&Field>) ensures (match r { Some(v) => in_keys(self@, k@) && forall|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == k@ ==> self@[i].1 == v.v(), None => !in_keys(self@, k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn stseq_ord_key(&self) -> (r: IdxKeys<'_, K>) ensures r@ == self@.map_values(|e: (Seq<char>, F)| e.0) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl<'a, K: Key> IdxKeys<'a, K> {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a K>) ensures (match r { Some(v) => old(self)@.len() > 0 && v.k() == old(self)@[0], None => old(self)@.len() == 0 }) { unimplemented!() }
}
pub type Fields = Idx<RawStr>;

// ---- the declared type of a field: the oracle
/// the layers from the outside in: lists around one type that is not a list
pub open spec fn layers_ok(s: Seq<LayerSpec>) -> bool {
    s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).props@ =~= Map::empty() && layer_of(s[i].ty@) is Some && (is_list(layer_of(s[i].ty@)->0) <==> i > 0))
}
pub open spec fn layers_of(s: Seq<LayerSpec>) -> Seq<Layer> { s.reverse().map_values(|l: LayerSpec| layer_of(l.ty@)->0) }
pub open spec fn field_of(s: Seq<LayerSpec>, nullable: bool) -> F { F { layers: layers_of(s), nullable } }

pub open spec fn interop_s(a: Layer, b: Layer) -> bool { a.tag.class == b.tag.class && (a.tag.class == TagClass::UnsignedInt || a.tag.class == TagClass::SignedInt || a.tag.class == TagClass::Float) }
pub open spec fn empty(m: DictGeneric) -> bool { m@ =~= Map::empty() }

// ---- creation: the oracle
pub open spec fn prims(s: Seq<FieldSpec>, n: nat) -> nat decreases n when n <= s.len() { if n == 0 { 0 } else { prims(s, (n - 1) as nat) + if s[n - 1].primary { 1nat } else { 0 } } }
/// the declared primary key, or the first field
pub open spec fn pk_of(s: Seq<FieldSpec>, n: nat) -> int decreases n when n <= s.len() { if n == 0 { 0 } else if s[n - 1].primary { n - 1 } else { pk_of(s, (n - 1) as nat) } }
pub open spec fn names_differ(s: Seq<FieldSpec>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] s[i]).field_name@ != (#[trigger] s[j]).field_name@ }
pub open spec fn field_ok(f: FieldSpec) -> bool { layers_ok(f.layers@) && !(f.primary && f.null) }
pub open spec fn first_ok(s: Seq<FieldSpec>, n: int) -> bool { names_differ(s, n) && forall|i: int| 0 <= i < n ==> field_ok(#[trigger] s[i]) }
pub open spec fn create_ok(s: Seq<FieldSpec>, p: DictGeneric) -> bool {
    empty(p) && s.len() > 0 && first_ok(s, s.len() as int) && prims(s, s.len()) <= 1 && ({ let k = s[pk_of(s, s.len())]; !k.null && layers_of(k.layers@)[0].tag.unique != TagUnique::Illegal }) }
pub open spec fn made(s: Seq<FieldSpec>, n: nat) -> Seq<(Seq<char>, F)> { s.take(n as int).map_values(|f: FieldSpec| (f.field_name@, field_of(f.layers@, f.null))) }
proof fn pk_in(s: Seq<FieldSpec>, n: nat) requires n <= s.len(), n > 0 ensures 0 <= pk_of(s, n) < n decreases n { reveal_with_fuel(pk_of, 2); if n > 1 { pk_in(s, (n - 1) as nat); } }
proof fn pk_first(s: Seq<FieldSpec>, n: nat) requires n <= s.len() ensures prims(s, n) == 0 ==> pk_of(s, n) == 0, prims(s, n) <= n decreases n { if n > 0 { pk_first(s, (n - 1) as nat); } }
proof fn prims_grow(s: Seq<FieldSpec>, n: nat, m: nat) requires n <= m <= s.len() ensures prims(s, n) <= prims(s, m) decreases m { if n < m { prims_grow(s, n, (m - 1) as nat); } }
proof fn made_has(s: Seq<FieldSpec>, n: nat) requires n < s.len() ensures in_keys(made(s, n), s[n as int].field_name@) <==> !(forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).field_name@ != s[n as int].field_name@),
    made(s, (n + 1) as nat) =~= made(s, n).push((s[n as int].field_name@, field_of(s[n as int].layers@, s[n as int].null)))
{
    let k = s[n as int].field_name@;
    assert forall|i: int| 0 <= i < n implies (#[trigger] made(s, n)[i]).0 == s[i].field_name@ by {}
    if in_keys(made(s, n), k) { let i = choose|i: int| 0 <= i < made(s, n).len() && (#[trigger] made(s, n)[i]).0 == k; assert(s[i].field_name@ == k); }
    else { assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).field_name@ != k by { assert(made(s, n)[i].0 == s[i].field_name@); } }
}

// ---- alteration: the oracle
pub open spec fn nullable_of(p: DictGeneric) -> Option<bool> { if !p@.dom().contains("nullable"@) { Some(false) } else { match p@["nullable"@] { DictEntryGeneric::Data(b) => if b.k() == TagClass::Bool { Some(b.b()) } else { None }, _ => None } } }
/// the type of one layer becomes that of the declaration `l`
pub open spec fn step_ok(c: Layer, l: LayerSpec) -> bool { empty(l.props) && layer_of(l.ty@) is Some && ({ let n = layer_of(l.ty@)->0; n.tag.selector == c.tag.selector || interop_s(c, n) }) }
pub open spec fn ld_ok(c: F, s: Seq<LayerSpec>) -> bool { s.len() <= c.layers.len() && forall|i: int| 0 <= i < s.len() ==> step_ok(c.layers[i], #[trigger] s.reverse()[i]) }
pub open spec fn ld_new(c: F, s: Seq<LayerSpec>, n: int) -> Seq<Layer> { Seq::new(c.layers.len(), |i: int| if i < n { layer_of(s.reverse()[i].ty@)->0 } else { c.layers[i] }) }
pub open spec fn differs(c: F, s: Seq<LayerSpec>, i: int) -> bool { (layer_of(s.reverse()[i].ty@)->0).tag.selector != c.layers[i].tag.selector }
pub open spec fn wider(c: F, s: Seq<LayerSpec>, i: int) -> bool { sel_ge((layer_of(s.reverse()[i].ty@)->0).tag.selector, c.layers[i].tag.selector) }
pub open spec fn ld_delta(c: F, s: Seq<LayerSpec>, nullable: bool, n: int) -> bool { c.nullable != nullable || exists|i: int| 0 <= i < n && #[trigger] differs(c, s, i) }
pub open spec fn ld_free(c: F, s: Seq<LayerSpec>, nullable: bool, n: int) -> bool { !(c.nullable && !nullable) && forall|i: int| 0 <= i < n ==> #[trigger] wider(c, s, i) }
pub struct Zip3<'a, 'b> { pub a: VIter<LayerSpec<'a>>, pub b: &'b [Layer], pub i: usize }
impl<'a, 'b> Zip3<'a, 'b> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == (if self.a@.len() <= self.b@.len() - self.i { self.a@.len() as int } else { self.b@.len() - self.i }) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<((LayerSpec<'a>, &'b Layer), usize)>)
        ensures final(self).b@ == old(self).b@, (match r { Some(((x, y), k)) => old(self).a@.len() > 0 && old(self).i < old(self).b@.len() && x == old(self).a@[0] && *y == old(self).b@[old(self).i as int] && k == old(self).i && final(self).a@ == old(self).a@.drop_first() && final(self).i == old(self).i + 1,
            None => old(self).a@.len() == 0 || old(self).i >= old(self).b@.len() }) { unimplemented!() }
}
/// TRUSTED: a vector holds fewer than usize::MAX elements of non-zero size
#[verifier::external_body] proof fn few(s: &VInline<1, Layer>) ensures s@.len() < usize::MAX {}
pub fn vp_set(v: &mut VInline<1, Layer>, i: usize, l: Layer) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, l) { let r = v.at_mut(i); *r = l; }
pub open spec fn field_in(m: Seq<(Seq<char>, F)>, k: Seq<char>) -> F { m[choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k].1 }
pub open spec fn uniq_keys(m: Seq<(Seq<char>, F)>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0 }
'''
SPEC3 = r'''
proof fn ld_more(c: F, s: Seq<LayerSpec>, nullable: bool, n: int) requires 0 <= n < s.len() <= c.layers.len()
    ensures ld_delta(c, s, nullable, n + 1) == (ld_delta(c, s, nullable, n) || differs(c, s, n)), ld_free(c, s, nullable, n + 1) == (ld_free(c, s, nullable, n) && wider(c, s, n))
{
    if ld_delta(c, s, nullable, n + 1) && c.nullable == nullable { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] differs(c, s, i); assert(i < n ==> ld_delta(c, s, nullable, n)); }
    if ld_delta(c, s, nullable, n) && c.nullable == nullable { let i = choose|i: int| 0 <= i < n && #[trigger] differs(c, s, i); assert(0 <= i < n + 1); }
    if differs(c, s, n) { assert(0 <= n < n + 1); }
}
// ---- plans: the oracle
pub open spec fn adds<'a>(k: AlterKind<'a>) -> Seq<ExpandedField<'a>> { match k { AlterKind::Add(s) => s@, AlterKind::Update(s) => s@, _ => Seq::empty() } }
pub open spec fn fresh(s: Seq<ExpandedField>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] s[i]).field_name@ != (#[trigger] s[j]).field_name@ }
pub open spec fn add_ok(m: ModelData, f: ExpandedField) -> bool { !in_keys(m.fields@, f.field_name@) && m.p_key@ != f.field_name@ && nullable_of(f.props) is Some && layers_ok(f.layers@) }
pub open spec fn add_entry(f: ExpandedField) -> (Seq<char>, F) { (f.field_name@, field_of(f.layers@, nullable_of(f.props)->0)) }
pub open spec fn cur(m: ModelData, f: ExpandedField) -> F { field_in(m.fields@, f.field_name@) }
pub open spec fn upd_ok(m: ModelData, f: ExpandedField) -> bool { in_keys(m.fields@, f.field_name@) && m.p_key@ != f.field_name@ && nullable_of(f.props) is Some && f.props@.remove("nullable"@) =~= Map::empty() && ld_ok(cur(m, f), f.layers@) }
pub open spec fn upd_entry(m: ModelData, f: ExpandedField) -> (Seq<char>, F) { (f.field_name@, F { layers: ld_new(cur(m, f), f.layers@, f.layers@.len() as int), nullable: nullable_of(f.props)->0 }) }
pub open spec fn upd_delta(m: ModelData, f: ExpandedField) -> bool { ld_delta(cur(m, f), f.layers@, nullable_of(f.props)->0, f.layers@.len() as int) }
pub open spec fn upd_free(m: ModelData, f: ExpandedField) -> bool { ld_free(cur(m, f), f.layers@, nullable_of(f.props)->0, f.layers@.len() as int) }
pub open spec fn rm_one(m: ModelData, id: Ident) -> bool { in_keys(m.fields@, id@) && m.p_key@ != id@ }
pub open spec fn idents_differ(s: Seq<Ident>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
pub open spec fn plan_ok(m: ModelData, k: AlterKind) -> bool { match k {
    AlterKind::Remove(r) => idents_differ(r@, r@.len() as int) && forall|i: int| 0 <= i < r@.len() ==> rm_one(m, #[trigger] r@[i]),
    AlterKind::Add(s) => fresh(s@, s@.len() as int) && forall|i: int| 0 <= i < s@.len() ==> add_ok(m, #[trigger] s@[i]),
    AlterKind::Update(s) => fresh(s@, s@.len() as int) && forall|i: int| 0 <= i < s@.len() ==> upd_ok(m, #[trigger] s@[i]) } }
pub open spec fn plan_free(m: ModelData, k: AlterKind) -> bool { match k { AlterKind::Update(s) => forall|i: int| 0 <= i < s@.len() ==> upd_free(m, #[trigger] s@[i]), _ => true } }
pub open spec fn plan_is(m: ModelData, k: AlterKind, a: AlterAction) -> bool { match k {
    AlterKind::Remove(r) => if r@.len() == 0 { a is Ignore } else { a is Remove && a->Remove_0@ == r@ },
    AlterKind::Add(s) => if s@.len() == 0 { a is Ignore } else { a is Add && a->Add_0@ =~= s@.map_values(|f: ExpandedField| add_entry(f)) },
    AlterKind::Update(s) => if !(exists|i: int| 0 <= i < s@.len() && upd_delta(m, #[trigger] s@[i])) { a is Ignore } else { a is Update && a->Update_0@ =~= s@.map_values(|f: ExpandedField| upd_entry(m, f)) } } }
'''
def nested(m): return ""
def selcmp(m):
    a, op, b = m.group(1), m.group(2), m.group(3)
    return {">=": "vp_sel_ge(%s, %s)" % (a, b), "<=": "vp_sel_ge(%s, %s)" % (b, a), ">": "(!vp_sel_ge(%s, %s))" % (b, a), "<": "(!vp_sel_ge(%s, %s))" % (a, b)}[op]
BOOLNUM = [(r"\(([\w.()]+) (?:\^|!=) (\w+)\) as usize", r"(if \1 != \2 { 1usize } else { 0usize })"), (r"(?<=\+= )(\w+) as usize", r"(if \1 { 1usize } else { 0usize })")]
LD = BOOLNUM + [(r"(?s)fn (?:classeq|interop)\([^{]*\{.*?\n        \}", nested, "required"), (r"layers\s*\.into_iter\(\)\s*\.rev\(\)\s*\.zip\(current\.layers\(\)\)\s*\.zip\(new_field\.layers\.iter_mut\(\)\)", "Zip3 { a: VIter::of(layers).rev(), b: current.layers(), i: 0 }"),
     (r"\*new_layer = (\w+);", r"vp_set(&mut new_field.layers, new_layer, \1);"), (r"(\w+_selector) (>=|<=|>|<) (\w+_selector)", selcmp), (r"(\w+)\.clone\(\)", r"vp_clone_field(\1)")]
ALL1 = "{ let vp_s = vp_slice_of(&r); let mut vp_all = true; let mut vp_i: usize = 0; while vp_all && vp_i < vp_s.len() invariant vp_s@ == r@, vp_i <= vp_s@.len(), vp_all <==> idents_differ(r@, vp_i as int), vp_all ==> forall|k: Seq<char>| x@.contains(k) <==> exists|i: int| 0 <= i < vp_i && (#[trigger] r@[i])@ == k decreases vp_s@.len() - vp_i + (if vp_all { 1int } else { 0 }) { let id = &vp_s[vp_i]; vp_i = vp_i + 1; vp_all = %s; } vp_all }"
ALL2 = "{ let vp_s = vp_slice_of(&r); let mut vp_all = true; let mut vp_i: usize = 0; while vp_all && vp_i < vp_s.len() invariant vp_s@ == r@, vp_i <= vp_s@.len(), vp_all <==> forall|i: int| 0 <= i < vp_i ==> rm_one(*mdl, #[trigger] r@[i]) decreases vp_s@.len() - vp_i + (if vp_all { 1int } else { 0 }) { let id = &vp_s[vp_i]; vp_i = vp_i + 1; vp_all = {"
def ign(m): return "if %s { AlterAction::Ignore } else { AlterAction::%s(%s) }" % ({"Remove": "vp_slice_of(&%s).len() == 0", "Add": "%s.is_empty()", "Update": "%s.is_empty()"}[m.group(1)] % m.group(2), m.group(1), m.group(2))
FD = BOOLNUM + [(r"r\.iter\(\)\.all\(\|id\| ([\w.]+\(id\.as_str\(\)\))\)", lambda m: ALL1 % m.group(1)), (r"r\.iter\(\)\.all\(\|id\| \{", ALL2), (r"\}\)(?= \{\s*can_ignore)", "}; } vp_all }"), (r"can_ignore!\(AlterAction::(\w+)\((\w+)\)\)", ign), (r"HashSet::new\(\)", "StrSet::new()"),
     (r"IndexSTSeqCns::with_capacity", "Idx::<Box<str>>::with_capacity"), (r"IndexST::new\(\)", "Idx::<Box<str>>::new()"), (r"(?:util::)?bx_to_vec(?:::<ExpandedField<'a>>)?\((\w+)\)\.into_iter\(\)", r"VIter::of(vp_bx_to_vec(\1))"), (r"util::bx_to_vec(?:::<ExpandedField<'a>>)?\((\w+)\)(?!\.into_iter)", r"vp_bx_to_vec(\1)"), (r"(\w+)\.into_iter\(\)(?=;)", r"VIter::of(\1)"),
     (r"(?<=\()id(?=\))", "id.as_str()"), (r"&field_name", "field_name.as_str()"), (r"field_name\.as_str\(\)\.into\(\)", "vp_to_box(field_name.as_str())")]
def src_of(name):
    s, f = find(AL, name, ("fn",))
    return s[f["span"][0]:f["span"][1]].decode()

def classeq():
    t = src_of("AlterPlan::ldeltas")
    a = re.search(r"fn classeq\([^{]*\{.*?\n        \}", t, re.S); b = re.search(r"fn interop\([^{]*\{.*?\n        \}", t, re.S)
    if not a or not b:
        raise Undecided("lost anchor: classeq, interop of AlterPlan::ldeltas")
    pure = lambda x: re.sub(r"(?<!\|)\|(?!\|)", "||", re.sub(r"(?<=[) ])& (?=\()", "&& ", re.sub(r"//.*", "", x)))
    return (pure(a.group(0)).replace("-> bool {", "-> (r: bool) ensures r == (current.tag.class == new.tag.class && current.tag.class == class) {") + "\n" +
            pure(b.group(0)).replace("-> bool {", "-> (r: bool) ensures r == interop_s(*current, *new) {"))
IT = [(r"(\w+)\.into_iter\(\)", r"VIter::of(\1)"), (r"get_layer\(&(\w+)\)", r"get_layer(\1.as_str())")]
D1 = "#[derive(Clone, Copy)]"
ITEMS = [
 Raw(SPEC), Ty(TG, "FullTag", attr="#[derive(PartialEq, Eq, Structural, Clone, Copy)]"),
 *[Fn(TG, "<FullTag as DataTag>::" + f, header="impl FullTag", inherent=True, spec="ensures r == self." + f[4:]) for f in ("tag_class", "tag_selector", "tag_unique")],
 Ty(MO, "Layer", attr="#[derive(PartialEq, Eq, Structural, Clone, Copy)]"), Ty(MO, "Field"), Ty(SY, "LayerSpec"), Ty(SY, "FieldSpec"), Ty(SY, "ExpandedField"), Ty(CR, "CreateModel"), Ty(QA, "AlterKind"), Ty(QA, "AlterModel"), Raw(SPEC2),
 Ty(MO, "ModelData", sub=[(r"decl: String,", "decl: (),")]),
 Fn(MO, "Field::is_nullable", spec="ensures r == self.nullable"),
 Fn(MO, "Field::layers", sub=[(r"&self\.layers", "self.layers.slice()")], spec="ensures r@ == self.layers@"),
 Fn(MO, "Field::parse_layers", sub=IT, spec="ensures (match r { Ok(f) => layers_ok(spec@) && f.v() == field_of(spec@, nullable), Err(_) => !layers_ok(spec@) })",
    loops={0: """invariant spec@.reverse() == rv, layers@.len() <= rv.len(), layers@ == rv.skip(rv.len() - layers@.len()), okay ==> layerview@.len() == rv.len() - layers@.len(), okay ==> layerview@ =~= layers_of(spec@).take(rv.len() - layers@.len()),
        okay ==> forall|i: int| 0 <= i < rv.len() - layers@.len() ==> (#[trigger] rv[i]).props@ =~= Map::empty() && layer_of(rv[i].ty@) is Some && (is_list(layer_of(rv[i].ty@)->0) <==> i < rv.len() - layers@.len() - 1 || !fin),
        fin ==> layers@.len() < rv.len(), !okay ==> !layers_ok(spec@) decreases layers@.len()"""},
    hints={"start": "let ghost rv = spec@.reverse(); proof { assert(forall|i: int| 0 <= i < rv.len() ==> #[trigger] rv[i] == spec@[rv.len() - 1 - i]); }",
           ("loop", 0, "start"): "let ghost q = rv.len() - layers@.len(); proof { assert(rv[q] == spec@[rv.len() - 1 - q]); assert(layers@[0] == rv[q]); assert(layers_of(spec@)[q] == layer_of(rv[q].ty@)->0); }",
           ("loop", 0, "after"): "proof { let n = rv.len() - layers@.len(); if okay && fin && layers@.len() == 0 { assert forall|i: int| 0 <= i < spec@.len() implies (#[trigger] spec@[i]).props@ =~= Map::empty() && layer_of(spec@[i].ty@) is Some && (is_list(layer_of(spec@[i].ty@)->0) <==> i > 0) by { assert(rv[rv.len() - 1 - i] == spec@[i]); } assert(layers_of(spec@).take(n as int) =~= layers_of(spec@)); } if okay && fin && layers@.len() > 0 { assert(rv[n - 1] == spec@[rv.len() - n]); assert(!is_list(layer_of(spec@[rv.len() - n].ty@)->0)); } if okay && !fin && rv.len() > 0 { assert(rv[rv.len() - 1] == spec@[0]); } }"}),

 Fn(MO, "ModelData::new_with_private", sub=[(r"String::new\(\)", "()"), (r"slf\.sync_decl\(\);", "")], spec="ensures r.p_key@ == p_key@, r.p_tag == p_tag, r.fields@ == fields@"),
 Fn(MO, "ModelData::process_create", sub=IT + [(r"unsafe \{", "{"), (r"let mut last_pk = None", "let mut last_pk: Option<RawStr> = None"), (r"fields\.st_get\(&last_pk\)", "fields.get_raw(&last_pk)")],
    spec="ensures (match r { Ok(m) => create_ok(arg.fields@, arg.props) && ({ let s = arg.fields@; let k = s[pk_of(s, s.len())]; m.fields@ =~= made(s, s.len()) && m.p_key@ == k.field_name@ && m.p_tag == layers_of(k.layers@)[0].tag }), Err(_) => !create_ok(arg.fields@, arg.props) })",
    loops={0: """invariant s == arg.fields@, p0 == arg.props, field_spec@.len() <= s.len(), field_spec@ == s.skip(s.len() - field_spec@.len()), okay ==> empty(p0) && s.len() > 0, okay ==> first_ok(s, s.len() - field_spec@.len()), !okay ==> !create_ok(s, p0),
        okay ==> fields@ == made(s, (s.len() - field_spec@.len()) as nat), okay ==> pk_cnt == prims(s, (s.len() - field_spec@.len()) as nat), pk_cnt <= s.len() - field_spec@.len(), s.len() <= usize::MAX,
        okay ==> (match last_pk { Some(k) => pk_cnt > 0 && k@ == s[pk_of(s, (s.len() - field_spec@.len()) as nat)].field_name@, None => pk_cnt == 0 }) decreases field_spec@.len()"""},
    hints={"start": "let ghost s = arg.fields@; let ghost p0 = arg.props;", 
       ("loop", 0, "start"): "let ghost n = s.len() - field_spec@.len(); proof { assert(field_spec@[0] == s[n]); if create_ok(s, p0) { assert(field_ok(s[n as int])); assert(layers_ok(field_spec@[0].layers@)); } made_has(s, n as nat); pk_first(s, n as nat); }",
       ("loop", 0, "after"): "proof { if okay { pk_in(s, s.len()); pk_first(s, s.len()); assert(made(s, s.len())[0].0 == s[0].field_name@); let k = pk_of(s, s.len()); assert(made(s, s.len())[k] == (s[k].field_name@, field_of(s[k].layers@, s[k].null))); assert(field_ok(s[k])); assert(layers_of(s[k].layers@).len() > 0); assert(fields@.map_values(|e: (Seq<char>, F)| e.0)[0] == s[0].field_name@); assert(in_keys(fields@, s[k].field_name@)); } }"}),

 Raw(classeq()),
 Ty(AL, "AlterAction", sub=[(r"IndexSTSeqCns<Box<str>, Field>", "Idx<Box<str>>"), (r"IndexST<Box<str>, Field>", "Idx<Box<str>>")]), Ty(AL, "AlterPlan"), Raw(SPEC3),
 *[Fn(MO, "ModelData::" + f, sub=[(r"([\w.]+)\.as_bytes\(\) == (\w+)\.as_bytes\(\)", r"vp_raw_eq(&\1, \2)")], spec=s) for f, s in (("is_pk", "ensures r == (self.p_key@ == new@)"), ("not_pk", "ensures r == (self.p_key@ != new@)"), ("guard_pk", "ensures r is Ok <==> self.p_key@ != new@"), ("fields", "ensures r@ == self.fields@"))],
 Fn(AL, "no_field", spec="ensures r == !in_keys(mr.fields@, new@)"),
 Fn(AL, "check_nullable", sig_sub=[("&mut HashMap<Box<str>, DictEntryGeneric>", "&mut DictGeneric")], spec="ensures (match r { Ok(b) => nullable_of(*old(props)) == Some(b) && final(props)@ == old(props)@.remove(\"nullable\"@), Err(_) => nullable_of(*old(props)) is None })"),
 Fn(AL, "AlterPlan::ldeltas", sub=IT[1:] + LD,
    spec="""ensures (match r { Ok(x) => ld_ok(current.v(), layers@) && x.1.nullable == nullable && x.1.layers@ =~= ld_new(current.v(), layers@, layers@.len() as int) && x.0 == ld_delta(current.v(), layers@, nullable, layers@.len() as int)
        && *final(super_okay) == *old(super_okay) && *final(super_nlck) == (*old(super_nlck) && ld_free(current.v(), layers@, nullable, layers@.len() as int)), Err(_) => !ld_ok(current.v(), layers@) })""",
    loops={0: """invariant c == current.v(), s == layers@, rv == s.reverse(), s.len() <= c.layers.len(), c.layers.len() < usize::MAX, zipped_layers.i <= s.len(), zipped_layers.b@ == c.layers, zipped_layers.a@ == rv.skip(zipped_layers.i as int), new_field.nullable == nullable, *super_nlck == *old(super_nlck), *super_okay == *old(super_okay),
        okay ==> forall|i: int| 0 <= i < zipped_layers.i ==> step_ok(c.layers[i], #[trigger] rv[i]), !okay ==> !ld_ok(c, s), okay ==> new_field.layers@ =~= ld_new(c, s, zipped_layers.i as int), new_field.layers@.len() == c.layers.len(), deltasize <= zipped_layers.i + 1,
        okay ==> (deltasize != 0 <==> ld_delta(c, s, nullable, zipped_layers.i as int)), okay ==> (no_lock <==> ld_free(c, s, nullable, zipped_layers.i as int)) decreases s.len() - zipped_layers.i"""},
    hints={"start": "let ghost c = current.v(); let ghost s = layers@; let ghost rv = s.reverse(); proof { few(&current.layers); }", ("loop", 0, "start"): "let ghost n = zipped_layers.i as int; proof { assert(zipped_layers.a@[0] == rv[n]); assert(rv[n] == s.reverse()[n]); if ld_ok(c, s) { assert(step_ok(c.layers[n], s.reverse()[n])); } ld_more(c, s, nullable, n); }"}),
 Fn(AL, "AlterPlan::fdeltas", sub=IT[:0] + FD, loops_optional=True, closures_optional=True,
    spec="ensures (match r { Ok(p) => plan_ok(*mdl, arg.kind) && p.model == arg.model && p.no_lock == plan_free(*mdl, arg.kind) && plan_is(*mdl, arg.kind, p.action), Err(_) => !plan_ok(*mdl, arg.kind) })",
    loops={0: """invariant ({ let s = adds(arg.kind); let n = s.len() - fields@.len(); fields@.len() <= s.len() && fields@ == s.skip(n) && arg.kind is Add && (okay ==> fresh(s, n) && (forall|i: int| 0 <= i < n ==> add_ok(*mdl, #[trigger] s[i])) && add@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] add@[i] == add_entry(s[i])) && (!okay ==> !plan_ok(*mdl, arg.kind)) }), no_lock decreases fields@.len()""",
           1: """invariant ({ let s = adds(arg.kind); let n = s.len() - updated_fields@.len(); updated_fields@.len() <= s.len() && s.len() <= usize::MAX && updated_fields@ == s.skip(n) && arg.kind is Update && any_delta <= n && (okay ==> fresh(s, n) && (forall|i: int| 0 <= i < n ==> upd_ok(*mdl, #[trigger] s[i])) && new_fields@.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] new_fields@[i] == upd_entry(*mdl, s[i]))
              && (any_delta != 0 <==> exists|i: int| 0 <= i < n && upd_delta(*mdl, #[trigger] s[i])) && (no_lock <==> forall|i: int| 0 <= i < n ==> upd_free(*mdl, #[trigger] s[i]))) && (!okay ==> !plan_ok(*mdl, arg.kind)) }) decreases updated_fields@.len()"""},
    hints={("loop", 0, "start"): "let ghost s = adds(arg.kind); let ghost n = s.len() - fields@.len(); proof { assert(fields@[0] == s[n]); if plan_ok(*mdl, arg.kind) { assert(add_ok(*mdl, s[n])); } if in_keys(add@, s[n].field_name@) { let i = choose|i: int| 0 <= i < add@.len() && (#[trigger] add@[i]).0 == s[n].field_name@; assert(add@[i] == add_entry(s[i])); } else { assert forall|i: int| 0 <= i < n && okay implies (#[trigger] s[i]).field_name@ != s[n].field_name@ by { assert(add@[i] == add_entry(s[i])); } } }",
           ("loop", 1, "start"): "let ghost s = adds(arg.kind); let ghost n = s.len() - updated_fields@.len(); proof { assert(updated_fields@[0] == s[n]); if plan_ok(*mdl, arg.kind) { assert(upd_ok(*mdl, s[n])); } if in_keys(new_fields@, s[n].field_name@) { let i = choose|i: int| 0 <= i < new_fields@.len() && (#[trigger] new_fields@[i]).0 == s[n].field_name@; assert(new_fields@[i] == upd_entry(*mdl, s[i])); } else { assert forall|i: int| 0 <= i < n && okay implies (#[trigger] s[i]).field_name@ != s[n].field_name@ by { assert(new_fields@[i] == upd_entry(*mdl, s[i])); } } }"}),
]
