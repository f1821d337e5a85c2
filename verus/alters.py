"""P18, P15: carrying out an alteration: the catalogue, the log, the history of the fields, and rows written before it
(core/model/alt.rs, core/model/mod.rs, core/model/delta.rs, core/index/row.rs, txn/gns/model.rs, replay in r1/impls/gns/model.rs)

Dropped by the extraction on top of what models.py drops (stated here, counted as R6 in the evidence):
 * the locks: `with_model_space_mut_for_ddl(e, |space, model| { B })` becomes B with `space` and `model` as parameters (a model that is not there gives
   QExecObjectNotFound before B), `with_model_mut(gns, .., |model| { B })` likewise; the row is handed over as `&mut RowData`;
 * ModelMutator (a reference to the model) becomes the model; what its drop does (the text of DESCRIBE) is dropped;
 * `x.for_each(|p| { B })` and `for p in x { B }` become `while let Some(p) = it.next() { B }` over the same iterator;
 * the parts of the delta state that hold data deltas (queue and counters) are not modelled.
"""
include("models")
DE = "server/src/engine/core/model/delta.rs"
RW = "server/src/engine/core/index/row.rs"
TM = "server/src/engine/txn/gns/model.rs"
TS = "server/src/engine/txn/shared.rs"
GM = "server/src/engine/storage/common_encoding/r1/impls/gns/model.rs"
def cut(t, *reps):
    for a, b in reps:
        if a not in t: raise Undecided("unit models changed: " + a)
        t = t.replace(a, b)
    return t
BASE = cut(SPEC, ("#[verifier::external_body] pub struct DeltaState { x: u8 }", ""), ("impl DeltaState { #[verifier::external_body] pub fn new_resolved() -> (r: Self) { unimplemented!() } }", ""),
    ("QExecUnknownField }", "QExecUnknownField, QExecNeedLock, SysTransactionalError }\npub enum RestoreError { OnRestoreDataConflictMismatch, OnRestoreDataMissing, OnRestoreDataConflictAlreadyExists }\npub type RuntimeResult<T> = Result<T, RestoreError>;"),
    ("pub fn allocate_or_recycle", "pub fn push_allocated(&mut self, new: Box<str>) -> (r: RawStr) ensures r@ == new@ { unimplemented!() }\n    #[verifier::external_body] pub fn mark_pending_remove(&mut self, v: &str) -> (r: RawStr) ensures r@ == v@ { unimplemented!() }\n    #[verifier::external_body] pub fn allocate_or_recycle"))
DELTA = r'''
/// how the names of the fields of a model changed from one version to the next
pub ghost enum D { Add(Seq<char>), Rem(Seq<char>, int) }
impl SchemaDeltaPart { pub open spec fn d(&self) -> D { match self.kind { SchemaDeltaKind::FieldAdd(n) => D::Add(n@), SchemaDeltaKind::FieldRem(n, p) => D::Rem(n@, p as int) } } }
#[verifier::external_body] pub struct AtomicU64 { x: u8 }
#[verifier::external_body] pub struct AtomicUsize { x: u8 }
#[verifier::external_body] pub struct DataQueue { x: u8 }
impl AtomicU64 { #[verifier::external_body] pub fn new(v: u64) -> (r: Self) { unimplemented!() } }
impl AtomicUsize { #[verifier::external_body] pub fn new(v: usize) -> (r: Self) { unimplemented!() } }
impl DataQueue { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
// ---- std BTreeMap (keys are versions). TRUSTED
#[verifier::external_body] pub struct BMap { x: u8 }
#[verifier::external_body] pub struct BRange<'a> { x: &'a u8 }
pub open spec fn in_range(s: Seq<(u64, D)>, k: u64) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k }
/// everything in the map from `from` on, in order
pub open spec fn range_of(m: Map<u64, D>, from: u64, s: Seq<(u64, D)>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0)
    && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && s[i].0 >= from && s[i].1 == m[s[i].0])
    && (forall|k: u64| #[trigger] m.dom().contains(k) && k >= from ==> in_range(s, k))
}
impl BMap {
    pub uninterp spec fn view(&self) -> Map<u64, D>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u64, D>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: DeltaVersion, v: SchemaDeltaPart) -> (r: Option<SchemaDeltaPart>) ensures final(self)@ == old(self)@.insert(k.0, v.d()) { unimplemented!() }
    #[verifier::external_body] pub fn from(&self, k: DeltaVersion) -> (r: BRange<'_>) ensures range_of(self@, k.0, r@) { unimplemented!() }
    #[verifier::external_body] pub fn above(&self, k: DeltaVersion) -> (r: BRange<'_>) ensures (k.0 == u64::MAX ==> r@.len() == 0), (k.0 < u64::MAX ==> range_of(self@, (k.0 + 1) as u64, r@)) { unimplemented!() }
}
impl<'a> BRange<'a> {
    /// what is still to come
    pub uninterp spec fn view(&self) -> Seq<(u64, D)>;
    #[verifier::external_body] pub fn rev(self) -> (r: Self) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a DeltaVersion, &'a SchemaDeltaPart)>)
        ensures (match r { Some((k, v)) => old(self)@.len() > 0 && (k.0, v.d()) == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() }
}
'''
DELTA2 = r'''
#[verifier::external_body] fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
impl DeltaState {
    pub open spec fn cur(&self) -> u64 { self.schema_current_version }
    pub open spec fn at(&self, k: int) -> D { self.schema_deltas@[k as u64] }
    /// one change for every version
    pub open spec fn ok(&self) -> bool { forall|k: u64| #[trigger] self.schema_deltas@.dom().contains(k) <==> 1 <= k <= self.cur() }
    /// the same history up to `n`
    pub open spec fn agrees(&self, o: DeltaState, n: int) -> bool { forall|k: int| 1 <= k <= n ==> #[trigger] self.at(k) == o.at(k) }
}
/// lemma: the range from a version is the changes after it, one by one
proof fn contiguous(ds: DeltaState, from: u64, s: Seq<(u64, D)>, i: int)
    requires ds.ok(), range_of(ds.schema_deltas@, from, s), 1 <= from, 0 <= i
    ensures from + i <= ds.cur() ==> i < s.len() && s[i] == ((from + i) as u64, ds.at(from + i)), from + i > ds.cur() ==> s.len() <= i
    decreases i
{
    if i > 0 { contiguous(ds, from, s, i - 1); }
    if i < s.len() { assert(ds.schema_deltas@.dom().contains(s[i].0)); if i > 0 { assert(s[i - 1].0 < s[i].0); } }
    if from + i <= ds.cur() {
        let k = (from + i) as u64;
        assert(ds.schema_deltas@.dom().contains(k));
        assert(in_range(s, k));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k;
        if j < i { contiguous(ds, from, s, j); }
        if j > i { assert(s[i].0 < s[j].0); }
    }
}
pub open spec fn changes(ds: DeltaState, from: int) -> Seq<(u64, D)> { if from > ds.cur() { Seq::empty() } else { Seq::new((ds.cur() - from + 1) as nat, |i: int| ((from + i) as u64, ds.at(from + i))) } }
proof fn all_changes(ds: DeltaState, from: u64, s: Seq<(u64, D)>) requires ds.ok(), range_of(ds.schema_deltas@, from, s), 1 <= from ensures s =~= changes(ds, from as int)
{
    assert forall|i: int| 0 <= i < changes(ds, from as int).len() implies i < s.len() && s[i] == changes(ds, from as int)[i] by { contiguous(ds, from, s, i); }
    let l = changes(ds, from as int).len() as int; contiguous(ds, from, s, l); if l > 0 { contiguous(ds, from, s, l - 1); }
}
// ---- the fields a model had at a version: the oracle
pub open spec fn undo(ks: Seq<Seq<char>>, d: D) -> Seq<Seq<char>> { match d { D::Add(_) => if ks.len() > 0 { ks.drop_last() } else { ks }, D::Rem(n, p) => ks.insert(if p <= ks.len() { p } else { ks.len() as int }, n) } }
/// from the names at version `n` back to those at version `v`
pub open spec fn back(ks: Seq<Seq<char>>, ds: DeltaState, n: int, v: int) -> Seq<Seq<char>> decreases n - v { if n <= v { ks } else { back(undo(ks, ds.at(n)), ds, n - 1, v) } }
pub open spec fn keys_of(m: Seq<(Seq<char>, F)>) -> Seq<Seq<char>> { m.map_values(|e: (Seq<char>, F)| e.0) }
pub open spec fn names_at(m: ModelData, v: int) -> Seq<Seq<char>> { back(keys_of(m.fields@), m.delta, m.delta.cur() as int, v) }
proof fn back_agrees(ks: Seq<Seq<char>>, a: DeltaState, b: DeltaState, n: int, v: int) requires a.agrees(b, n), v >= 0 ensures back(ks, a, n, v) == back(ks, b, n, v) decreases n - v { if n > v { back_agrees(undo(ks, a.at(n)), a, b, n - 1, v); } }
proof fn back_step(ks: Seq<Seq<char>>, ds: DeltaState, n: int, v: int) requires v < n ensures back(ks, ds, n, v) == undo(back(ks, ds, n, v + 1), ds.at(v + 1)) decreases n - v { if n > v + 1 { back_step(undo(ks, ds.at(n)), ds, n - 1, v); } else { assert(back(ks, ds, n, n) == ks); assert(back(undo(ks, ds.at(n)), ds, n - 1, v) == undo(ks, ds.at(n))); } }
/// the change from one version to the next is the recorded one, and it never concerns the primary key
pub open spec fn step_is(a: Seq<Seq<char>>, b: Seq<Seq<char>>, d: D, pk: Seq<char>) -> bool { match d {
    D::Add(n) => n != pk && !a.contains(n) && b == a.push(n),
    D::Rem(n, p) => n != pk && 0 <= p < a.len() && a[p] == n && b == a.remove(p) && !b.contains(n) } }
#[verifier::opaque] pub open spec fn hist(m: ModelData) -> bool { m.delta.ok() && uniq_keys(m.fields@) && in_keys(m.fields@, m.p_key@) && forall|k: int| 1 <= k <= m.delta.cur() ==> step_is(names_at(m, k - 1), #[trigger] names_at(m, k), m.delta.at(k), m.p_key@) }
/// `n` versions later: what the model looked like at earlier versions is what it looked like before
#[verifier::opaque] pub open spec fn later(a: ModelData, b: ModelData, n: int) -> bool { b.delta.cur() == a.delta.cur() + n && b.p_key == a.p_key && b.p_tag == a.p_tag && b.uuid == a.uuid && b.data == a.data && (forall|v: int| 0 <= v <= a.delta.cur() ==> #[trigger] names_at(b, v) == names_at(a, v)) }
proof fn later_more(a: ModelData, b: ModelData, c: ModelData, n: int, k: int) requires later(a, b, n), later(b, c, k), n >= 0 ensures later(a, c, n + k) { reveal(later); assert forall|v: int| 0 <= v <= a.delta.cur() implies #[trigger] names_at(c, v) == names_at(a, v) by { assert(names_at(b, v) == names_at(a, v)); } }
proof fn later_same(a: ModelData, b: ModelData) requires b.delta.cur() == a.delta.cur(), b.delta.agrees(a.delta, a.delta.cur() as int), keys_of(b.fields@) == keys_of(a.fields@), b.p_key == a.p_key, b.p_tag == a.p_tag, b.uuid == a.uuid, b.data == a.data ensures later(a, b, 0)
{ reveal(later); assert forall|v: int| 0 <= v <= a.delta.cur() implies #[trigger] names_at(b, v) == names_at(a, v) by { back_agrees(keys_of(a.fields@), b.delta, a.delta, a.delta.cur() as int, v); } }
proof fn hist_same(a: ModelData, b: ModelData) requires hist(a), later(a, b, 0), b.delta.ok(), b.delta.agrees(a.delta, a.delta.cur() as int), keys_of(b.fields@) == keys_of(a.fields@) ensures hist(b)
{
    reveal(hist); reveal(later);
    assert(keys_of(b.fields@).len() == b.fields@.len()); assert(keys_of(a.fields@).len() == a.fields@.len());
    assert forall|i: int| 0 <= i < a.fields@.len() implies (#[trigger] b.fields@[i]).0 == a.fields@[i].0 by { assert(keys_of(a.fields@)[i] == a.fields@[i].0); assert(keys_of(b.fields@)[i] == b.fields@[i].0); }
    let i = choose|i: int| 0 <= i < a.fields@.len() && (#[trigger] a.fields@[i]).0 == a.p_key@; assert(b.fields@[i].0 == a.p_key@); assert(in_keys(b.fields@, b.p_key@));
    assert forall|i: int, j: int| 0 <= i < j < b.fields@.len() implies (#[trigger] b.fields@[i]).0 != (#[trigger] b.fields@[j]).0 by { assert(a.fields@[i].0 != a.fields@[j].0); }
    assert forall|k: int| 1 <= k <= b.delta.cur() implies step_is(names_at(b, k - 1), #[trigger] names_at(b, k), b.delta.at(k), b.p_key@) by { assert(names_at(a, k) == names_at(b, k)); assert(names_at(b, k - 1) == names_at(a, k - 1)); }
}
proof fn hist_new(m: ModelData, s: Seq<FieldSpec>) requires m.delta.cur() == 0, m.delta.ok(), names_differ(s, s.len() as int), m.fields@ =~= made(s, s.len()), in_keys(m.fields@, m.p_key@) ensures hist(m)
{ reveal(hist); let f = m.fields@; assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 by { assert(s[i].field_name@ != s[j].field_name@); assert(f[i].0 == s[i].field_name@); assert(f[j].0 == s[j].field_name@); } }
proof fn has_key(m: Seq<(Seq<char>, F)>, k: Seq<char>) ensures keys_of(m).contains(k) == in_keys(m, k)
{ if in_keys(m, k) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k; assert(keys_of(m)[i] == k); } if keys_of(m).contains(k) { let i = choose|i: int| 0 <= i < keys_of(m).len() && #[trigger] keys_of(m)[i] == k; assert(m[i].0 == k); } }
/// lemma: one more change
proof fn one_more(a: ModelData, b: ModelData)
    requires hist(a), b.delta.ok(), uniq_keys(b.fields@), in_keys(b.fields@, b.p_key@), b.delta.cur() == a.delta.cur() + 1, b.delta.agrees(a.delta, a.delta.cur() as int), b.p_key == a.p_key, b.p_tag == a.p_tag, b.uuid == a.uuid, b.data == a.data,
        undo(keys_of(b.fields@), b.delta.at(b.delta.cur() as int)) == keys_of(a.fields@), step_is(keys_of(a.fields@), keys_of(b.fields@), b.delta.at(b.delta.cur() as int), a.p_key@)
    ensures hist(b), later(a, b, 1)
{
    reveal(hist); reveal(later);
    let c = a.delta.cur() as int;
    assert forall|v: int| 0 <= v <= c implies #[trigger] names_at(b, v) == names_at(a, v) by { back_agrees(keys_of(a.fields@), b.delta, a.delta, c, v); }
    assert forall|k: int| 1 <= k <= b.delta.cur() implies step_is(names_at(b, k - 1), #[trigger] names_at(b, k), b.delta.at(k), b.p_key@) by {
        assert(names_at(b, k - 1) == names_at(a, k - 1));
        if k <= c { assert(names_at(a, k) == names_at(b, k)); } else { assert(names_at(a, c) == keys_of(a.fields@)); }
    }
}
// ---- rows: the oracle
pub type Cells = Map<Seq<char>, Datacell>;
pub uninterp spec fn nulld() -> Datacell;
impl Datacell { #[verifier::external_body] pub fn null() -> (r: Self) ensures r == nulld() { unimplemented!() } }
#[verifier::external_body] pub struct DcFieldIndex { x: u8 }
impl DcFieldIndex {
    pub uninterp spec fn view(&self) -> Cells;
    #[verifier::external_body] pub fn st_insert(&mut self, k: RawStr, v: Datacell) -> (r: bool) ensures r == !old(self)@.dom().contains(k@), final(self)@ == (if r { old(self)@.insert(k@, v) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn st_upsert(&mut self, k: RawStr, v: Datacell) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn st_delete(&mut self, k: &RawStr) -> (r: bool) ensures r == old(self)@.dom().contains(k@), final(self)@ == old(self)@.remove(k@) { unimplemented!() }
}
pub open spec fn row_step(c: Cells, d: D) -> Cells { match d { D::Add(n) => if c.dom().contains(n) { c } else { c.insert(n, nulld()) }, D::Rem(n, _) => c.remove(n) } }
/// the cells of a row of version `v` at version `n`
pub open spec fn row_at(c: Cells, ds: DeltaState, v: int, n: int) -> Cells decreases n - v { if n <= v { c } else { row_step(row_at(c, ds, v, n - 1), ds.at(n)) } }
/// a row has a cell for every field but the primary key
pub open spec fn fits_row(c: Cells, names: Seq<Seq<char>>, pk: Seq<char>) -> bool { forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> names.contains(k) && k != pk }
/// was the field there at every version from `v` to `n`
pub open spec fn kept(m: ModelData, k: Seq<char>, v: int, n: int) -> bool { forall|i: int| v <= i <= n ==> (#[trigger] names_at(m, i)).contains(k) }
proof fn row_one(o: Cells, a: Seq<Seq<char>>, b: Seq<Seq<char>>, d: D, pk: Seq<char>)
    requires fits_row(o, a, pk), step_is(a, b, d, pk)
    ensures fits_row(row_step(o, d), b, pk), forall|k: Seq<char>| #[trigger] row_step(o, d).dom().contains(k) ==> (if a.contains(k) { b.contains(k) && row_step(o, d)[k] == o[k] } else { row_step(o, d)[k] == nulld() })
{
    match d {
        D::Add(x) => { assert forall|k: Seq<char>| b.contains(k) == (a.contains(k) || k == x) by { if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(b[i] == k); } assert(b[a.len() as int] == x); } assert(!o.dom().contains(x)); }
        D::Rem(x, p) => { assert forall|k: Seq<char>| b.contains(k) == (a.contains(k) && k != x) by { if a.contains(k) && k != x { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; if i < p { assert(b[i] == k); } else { assert(b[i - 1] == k); } } if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(k == a[if i < p { i } else { i + 1 }]); } } }
    }
    assert forall|k: Seq<char>| #[trigger] row_step(o, d).dom().contains(k) <==> b.contains(k) && k != pk by { assert(o.dom().contains(k) <==> a.contains(k) && k != pk); }
}
proof fn kept_more(m: ModelData, k: Seq<char>, v: int, n: int) requires v < n ensures kept(m, k, v, n) == (kept(m, k, v, n - 1) && names_at(m, n).contains(k)), kept(m, k, v, n) ==> names_at(m, n - 1).contains(k) { if kept(m, k, v, n) { assert(names_at(m, n).contains(k)); assert(names_at(m, n - 1).contains(k)); } }
/// theorem: a row of any earlier version, brought up to date, has a cell for every field the model has; cells of fields that were there all along are untouched,
/// the others are null
proof fn row_current(m: ModelData, c: Cells, v: int, n: int)
    requires hist(m), 0 <= v <= n <= m.delta.cur(), fits_row(c, names_at(m, v), m.p_key@)
    ensures fits_row(row_at(c, m.delta, v, n), names_at(m, n), m.p_key@),
        forall|k: Seq<char>| #[trigger] row_at(c, m.delta, v, n).dom().contains(k) ==> row_at(c, m.delta, v, n)[k] == (if kept(m, k, v, n) { c[k] } else { nulld() })
    decreases n
{
    if n == v {
        assert forall|k: Seq<char>| #[trigger] row_at(c, m.delta, v, n).dom().contains(k) implies kept(m, k, v, n) by { assert(names_at(m, v).contains(k)); }
    } else {
        row_current(m, c, v, n - 1);
        let o = row_at(c, m.delta, v, n - 1); let r = row_at(c, m.delta, v, n);
        assert(step_is(names_at(m, n - 1), names_at(m, n), m.delta.at(n), m.p_key@)) by { reveal(hist); }
        row_one(o, names_at(m, n - 1), names_at(m, n), m.delta.at(n), m.p_key@);
        assert forall|k: Seq<char>| #[trigger] r.dom().contains(k) implies r[k] == (if kept(m, k, v, n) { c[k] } else { nulld() }) by {
            kept_more(m, k, v, n);
            if names_at(m, n - 1).contains(k) { assert(o.dom().contains(k)); }
        }
    }
}
'''
MORE = r'''
pub open spec fn pos(m: Seq<(Seq<char>, F)>, k: Seq<char>) -> int { choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn without(m: Seq<(Seq<char>, F)>, k: Seq<char>) -> Seq<(Seq<char>, F)> { if in_keys(m, k) { m.remove(pos(m, k)) } else { m } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct IdxIt<K> { x: Vec<K> }
impl<K> IdxIt<K> {
    pub uninterp spec fn view(&self) -> Seq<(Seq<char>, F)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(K, Field)>) where K: Key ensures (match r { Some((k, v)) => old(self)@.len() > 0 && (k.k(), v.v()) == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() }
}
#[verifier::external_body] pub struct MapIt { x: u8 }
impl MapIt {
    /// what is still to come (in any order)
    pub uninterp spec fn view(&self) -> Map<Seq<char>, F>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Box<str>, Field)>) ensures (match r { Some((k, v)) => old(self)@.dom().contains(k@) && v.v() == old(self)@[k@] && final(self)@ == old(self)@.remove(k@), None => old(self)@ =~= Map::empty() && final(self)@ == old(self)@ }) { unimplemented!() }
}
/// the entries as a map
pub open spec fn as_map(s: Seq<(Seq<char>, F)>) -> Map<Seq<char>, F> { Map::new(keys_of(s).to_set(), |k: Seq<char>| field_in(s, k)) }
impl<K: Key> Idx<K> {
    #[verifier::external_body] pub fn st_delete(&mut self, k: &str) -> (r: bool) requires uniq_keys(old(self)@) ensures r == in_keys(old(self)@, k@), final(self)@ == without(old(self)@, k@) { unimplemented!() }
    #[verifier::external_body] pub fn st_get_mut(&mut self, k: &str) -> (r: Option<&mut Field>) requires uniq_keys(old(self)@)
        ensures (match r { Some(v) => in_keys(old(self)@, k@) && v.v() == old(self)@[pos(old(self)@, k@)].1 && final(self)@ == old(self)@.update(pos(old(self)@, k@), (k@, final(v).v())), None => !in_keys(old(self)@, k@) && final(self)@ == old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn position_of(&self, k: &str) -> (r: Option<usize>) ensures (match r { Some(i) => i < self@.len() && self@[i as int].0 == k@, None => !in_keys(self@, k@) }) { unimplemented!() }
    /// TRUSTED: the keys (or entries), copied, in order
    #[verifier::external_body] pub fn key_copies(&self) -> (r: Vec<K>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).k() == self@[i].0 { unimplemented!() }
    #[verifier::external_body] pub fn kv_copies(&self) -> (r: IdxIt<K>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn stseq_owned_kv(self) -> (r: IdxIt<K>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn unordered(self) -> (r: MapIt) ensures r@ == as_map(self@) { unimplemented!() }
}
#[verifier::external_body] fn vp_bs(a: &Box<str>) -> (r: &str) ensures r@ == a@ { a }
#[verifier::external_body] fn vp_box_slice<T>(a: &Box<[T]>) -> (r: &[T]) ensures r@ == a@ { a }
impl<'a> EntityIDRef<'a> {
    pub uninterp spec fn sp(&self) -> Seq<char>;
    pub uninterp spec fn en(&self) -> Seq<char>;
    #[verifier::external_body] pub fn space(&self) -> (r: &'a str) ensures r@ == self.sp() { unimplemented!() }
    #[verifier::external_body] pub fn entity(&self) -> (r: &'a str) ensures r@ == self.en() { unimplemented!() }
}
pub struct Space { pub uuid: Uuid }
impl Space { pub fn get_uuid(&self) -> (r: Uuid) ensures r == self.uuid { self.uuid } }
/// lemma: taking a field out
proof fn taken(m: Seq<(Seq<char>, F)>, k: Seq<char>, pk: Seq<char>)
    requires uniq_keys(m), in_keys(m, k), in_keys(m, pk), k != pk
    ensures ({ let p = pos(m, k); let b = without(m, k); 0 <= p < m.len() && m[p].0 == k && uniq_keys(b) && in_keys(b, pk) && !in_keys(b, k) && keys_of(b) == keys_of(m).remove(p) && keys_of(b).insert(p, k) == keys_of(m) && !keys_of(b).contains(k)
        && (forall|x: Seq<char>| x != k ==> (in_keys(b, x) <==> #[trigger] in_keys(m, x))) })
{
    let p = pos(m, k); let b = without(m, k);
    assert(keys_of(b) =~= keys_of(m).remove(p));
    assert(keys_of(b).insert(p, k) =~= keys_of(m));
    assert forall|x: Seq<char>| x != k implies (in_keys(b, x) <==> #[trigger] in_keys(m, x)) by {
        if in_keys(m, x) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == x; assert(b[if i < p { i } else { i - 1 }].0 == x); }
        if in_keys(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x; assert(m[if i < p { i } else { i + 1 }].0 == x); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(m[if i < p { i } else { i + 1 }].0 != m[if j < p { j } else { j + 1 }].0); }
    assert(!in_keys(b, k)) by { if in_keys(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k; if i < p { assert(m[i].0 != m[p].0); } else { assert(m[p].0 != m[i + 1].0); } } }
    has_key(b, k); assert(in_keys(m, pk));
}
/// lemma: putting a field at the end
proof fn put(m: Seq<(Seq<char>, F)>, k: Seq<char>, f: F, pk: Seq<char>)
    requires uniq_keys(m), !in_keys(m, k), in_keys(m, pk)
    ensures uniq_keys(m.push((k, f))), in_keys(m.push((k, f)), pk), k != pk, keys_of(m.push((k, f))) == keys_of(m).push(k), keys_of(m).push(k).drop_last() == keys_of(m), !keys_of(m).contains(k)
{
    let b = m.push((k, f));
    assert(keys_of(b) =~= keys_of(m).push(k)); assert(keys_of(m).push(k).drop_last() =~= keys_of(m)); has_key(m, k);
    let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == pk; assert(b[i].0 == pk);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { if j == m.len() { assert(m[i].0 == b[i].0); } else { assert(m[i].0 != m[j].0); } }
}
// ---- what carrying out an alteration gives: the oracle
pub open spec fn removed(m: Seq<(Seq<char>, F)>, ids: Seq<Seq<char>>, n: nat) -> Seq<(Seq<char>, F)> decreases n { if n == 0 { m } else { without(removed(m, ids, (n - 1) as nat), ids[n - 1]) } }
pub open spec fn retyped(m: Seq<(Seq<char>, F)>, u: Map<Seq<char>, F>) -> Seq<(Seq<char>, F)> { m.map_values(|e: (Seq<char>, F)| if u.dom().contains(e.0) { (e.0, u[e.0]) } else { e }) }
pub open spec fn names<'a>(s: Seq<Ident<'a>>) -> Seq<Seq<char>> { s.map_values(|i: Ident<'a>| i@) }
pub open spec fn boxes(s: Seq<Box<str>>) -> Seq<Seq<char>> { s.map_values(|i: Box<str>| i@) }
pub open spec fn upds(m: ModelData, s: Seq<ExpandedField>) -> Seq<(Seq<char>, F)> { s.map_values(|f: ExpandedField| upd_entry(m, f)) }
pub open spec fn new_ones(s: Seq<ExpandedField>) -> Seq<(Seq<char>, F)> { s.map_values(|f: ExpandedField| add_entry(f)) }
pub open spec fn altered(m: ModelData, k: AlterKind) -> Seq<(Seq<char>, F)> { match k {
    AlterKind::Remove(r) => removed(m.fields@, names(r@), r@.len()),
    AlterKind::Add(s) => m.fields@ + new_ones(s@),
    AlterKind::Update(s) => if exists|i: int| 0 <= i < s@.len() && upd_delta(m, #[trigger] s@[i]) { retyped(m.fields@, as_map(upds(m, s@))) } else { m.fields@ } } }
pub ghost struct Id { pub space: Seq<char>, pub name: Seq<char>, pub uuid: Uuid, pub version: u64 }
pub ghost enum Ev { Add(Id, Seq<(Seq<char>, F)>), Remove(Id, Seq<Seq<char>>), Update(Id, Seq<(Seq<char>, F)>) }
pub trait Txn { spec fn ev(&self) -> Ev; }
// ---- the journal. ASSUMED: the contract established under P12
#[verifier::external_body] pub struct Journal { x: u8 }
impl Journal {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    #[verifier::external_body] pub fn commit<X: Txn>(&mut self, t: X) -> (r: QueryResult<()>) ensures (match r { Ok(_) => final(self).log() == old(self).log().push(t.ev()), Err(e) => e is SysTransactionalError && final(self).log() == old(self).log() }) { unimplemented!() }
}
pub open spec fn id_of(a: AlterModel, m: ModelData) -> Id { Id { space: a.model.sp(), name: a.model.en(), uuid: m.uuid, version: m.delta.cur() } }
pub open spec fn nothing_to_do(m: ModelData, k: AlterKind) -> bool { match k { AlterKind::Remove(r) => r@.len() == 0, AlterKind::Add(s) => s@.len() == 0, AlterKind::Update(s) => !(exists|i: int| 0 <= i < s@.len() && upd_delta(m, #[trigger] s@[i])) } }
pub open spec fn event(a: AlterModel, m: ModelData) -> Ev { match a.kind { AlterKind::Remove(r) => Ev::Remove(id_of(a, m), names(r@)), AlterKind::Add(s) => Ev::Add(id_of(a, m), new_ones(s@)), AlterKind::Update(s) => Ev::Update(id_of(a, m), upds(m, s@)) } }
pub open spec fn versions(k: AlterKind) -> int { match k { AlterKind::Remove(r) => r@.len() as int, AlterKind::Add(s) => s@.len() as int, AlterKind::Update(_) => 0 } }
proof fn rm_keeps(m: Seq<(Seq<char>, F)>, ids: Seq<Seq<char>>, n: nat, pk: Seq<char>)
    requires uniq_keys(m), in_keys(m, pk), n <= ids.len(), forall|i: int| 0 <= i < ids.len() ==> in_keys(m, #[trigger] ids[i]) && ids[i] != pk, forall|i: int, j: int| 0 <= i < j < ids.len() ==> ids[i] != ids[j]
    ensures uniq_keys(removed(m, ids, n)), in_keys(removed(m, ids, n), pk), forall|i: int| n <= i < ids.len() ==> in_keys(removed(m, ids, n), #[trigger] ids[i])
    decreases n
{ if n > 0 { rm_keeps(m, ids, (n - 1) as nat, pk); let b = removed(m, ids, (n - 1) as nat); taken(b, ids[n - 1], pk); assert forall|i: int| n <= i < ids.len() implies in_keys(removed(m, ids, n), #[trigger] ids[i]) by { assert(in_keys(b, ids[i])); assert(ids[n - 1] != ids[i]); } } }
proof fn at_all(m: Seq<(Seq<char>, F)>) requires uniq_keys(m) ensures forall|i: int| 0 <= i < m.len() ==> pos(m, (#[trigger] m[i]).0) == i { assert forall|i: int| 0 <= i < m.len() implies pos(m, (#[trigger] m[i]).0) == i by { at_pos(m, i); } }
/// lemma: a field of the entries
proof fn at_pos(m: Seq<(Seq<char>, F)>, i: int) requires uniq_keys(m), 0 <= i < m.len() ensures pos(m, m[i].0) == i, in_keys(m, m[i].0), field_in(m, m[i].0) == m[i].1
{ let p = pos(m, m[i].0); assert(m[p].0 == m[i].0); if p < i { assert(m[p].0 != m[i].0); } if i < p { assert(m[i].0 != m[p].0); } }
proof fn map_has(m: Seq<(Seq<char>, F)>, k: Seq<char>) ensures as_map(m).dom().contains(k) == in_keys(m, k), in_keys(m, k) ==> as_map(m)[k] == field_in(m, k) { has_key(m, k); }
/// lemma: retyping one more field
proof fn retype_more(m: Seq<(Seq<char>, F)>, u: Map<Seq<char>, F>, k: Seq<char>, f: F)
    requires uniq_keys(m), in_keys(m, k), !u.dom().contains(k)
    ensures uniq_keys(retyped(m, u)), in_keys(retyped(m, u), k), pos(retyped(m, u), k) == pos(m, k), retyped(m, u).update(pos(m, k), (k, f)) =~= retyped(m, u.insert(k, f)), keys_of(retyped(m, u)) == keys_of(m)
{
    let b = retyped(m, u); let p = pos(m, k);
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] b[i]).0 == m[i].0 by {}
    assert(keys_of(b) =~= keys_of(m));
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(m[i].0 != m[j].0); }
    assert(b[p].0 == k); at_pos(b, p);
    assert forall|i: int| 0 <= i < m.len() && i != p implies (#[trigger] m[i]).0 != k by { if i < p { assert(m[i].0 != m[p].0); } else { assert(m[p].0 != m[i].0); } }
}
proof fn retype_none(m: Seq<(Seq<char>, F)>) ensures retyped(m, Map::empty()) == m, keys_of(retyped(m, Map::empty())) == keys_of(m) { assert(retyped(m, Map::empty()) =~= m); }
proof fn keys_upd(m: Seq<(Seq<char>, F)>, p: int, f: F) requires 0 <= p < m.len() ensures keys_of(m.update(p, (m[p].0, f))) == keys_of(m) { assert(keys_of(m.update(p, (m[p].0, f))) =~= keys_of(m)); }
/// what a plan hands over, entry by entry, has distinct names
proof fn fresh_new(s: Seq<ExpandedField>) requires fresh(s, s.len() as int) ensures uniq_keys(new_ones(s)) { let e = new_ones(s); assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { assert(s[i].field_name@ != s[j].field_name@); } }
proof fn fresh_upd(m: ModelData, s: Seq<ExpandedField>) requires fresh(s, s.len() as int), forall|i: int| 0 <= i < s.len() ==> upd_ok(m, #[trigger] s[i]) ensures uniq_keys(upds(m, s)), forall|k: Seq<char>| in_keys(upds(m, s), k) ==> in_keys(m.fields@, k)
{
    let e = upds(m, s);
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { assert(s[i].field_name@ != s[j].field_name@); }
    assert forall|k: Seq<char>| in_keys(e, k) implies in_keys(m.fields@, k) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(upd_ok(m, s[i])); }
}
/// the state of a loop that adds `s`, after `n`
pub open spec fn adding(m0: ModelData, m: ModelData, s: Seq<(Seq<char>, F)>, n: int) -> bool { hist(m) && later(m0, m, n) && m.fields@ == m0.fields@ + s.take(n) }
pub open spec fn removing(m0: ModelData, m: ModelData, ids: Seq<Seq<char>>, n: int) -> bool { hist(m) && later(m0, m, n) && m.fields@ == removed(m0.fields@, ids, n as nat) }
pub open spec fn retyping(m0: ModelData, m: ModelData, all: Map<Seq<char>, F>, left: Map<Seq<char>, F>) -> bool { hist(m) && later(m0, m, 0) && m.fields@ == retyped(m0.fields@, all.remove_keys(left.dom())) }
proof fn start(m: ModelData, s: Seq<(Seq<char>, F)>, ids: Seq<Seq<char>>, u: Map<Seq<char>, F>) requires hist(m) ensures adding(m, m, s, 0), removing(m, m, ids, 0), retyping(m, m, u, u)
{ later_same(m, m); assert(s.take(0) =~= Seq::empty()); assert(m.fields@ + s.take(0) =~= m.fields@); assert(u.remove_keys(u.dom()) =~= Map::empty()); retype_none(m.fields@); }
proof fn added_one(m0: ModelData, a: ModelData, b: ModelData, s: Seq<(Seq<char>, F)>, n: int) requires 0 <= n < s.len(), adding(m0, a, s, n), hist(b), later(a, b, 1), b.fields@ == a.fields@.push(s[n]) ensures adding(m0, b, s, n + 1)
{ later_more(m0, a, b, n, 1); assert(s.take(n + 1) =~= s.take(n).push(s[n])); assert(b.fields@ =~= m0.fields@ + s.take(n + 1)); }
proof fn not_yet(m: Seq<(Seq<char>, F)>, s: Seq<(Seq<char>, F)>, n: int) requires uniq_keys(s), 0 <= n < s.len(), forall|i: int| 0 <= i < s.len() ==> !in_keys(m, (#[trigger] s[i]).0) ensures !in_keys(m + s.take(n), s[n].0)
{ let k = s[n].0; let b = m + s.take(n); if in_keys(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k; if i < m.len() { assert(m[i].0 == k); assert(in_keys(m, k)); } else { assert(s[i - m.len()].0 == k); assert(s[i - m.len()].0 != s[n].0); } } }
proof fn retyped_one(m0: ModelData, a: ModelData, b: ModelData, u: Map<Seq<char>, F>, l: Map<Seq<char>, F>, k: Seq<char>)
    requires retyping(m0, a, u, l), uniq_keys(m0.fields@), l.dom().contains(k), u.dom().contains(k), l.dom().subset_of(u.dom()), in_keys(m0.fields@, k), hist(b), later(a, b, 0), in_keys(a.fields@, k) ==> b.fields@ == a.fields@.update(pos(a.fields@, k), (k, u[k]))
    ensures retyping(m0, b, u, l.remove(k)), in_keys(a.fields@, k)
{ let d = u.remove_keys(l.dom()); retype_more(m0.fields@, d, k, u[k]); assert(u.remove_keys(l.remove(k).dom()) =~= d.insert(k, u[k])); later_more(m0, a, b, 0, 0); }
'''
ADD = "let mut vp_it = %s; let ghost m0 = *model; let ghost vp_s = vp_it@; proof { start(m0, vp_s, Seq::empty(), Map::empty()); } while let Some((%s, %s)) = vp_it.next() invariant vp_it@.len() <= vp_s.len(), vp_it@ == vp_s.skip(vp_s.len() - vp_it@.len()), adding(m0, *model, vp_s, vp_s.len() - vp_it@.len()), %s m0.delta.cur() + vp_s.len() < u64::MAX ensures vp_it@.len() == 0 decreases vp_it@.len() { let ghost n = vp_s.len() - vp_it@.len() - 1; let ghost m1 = *model; proof { reveal(later); assert(vp_s.skip(n)[0] == vp_s[n]); %s } %s proof { %s } }"
def add_loop(it, a, b, body, live):
    done = "added_one(m0, m1, *model, vp_s, n);"
    if live: return ADD % (it, a, b, "uniq_keys(vp_s), forall|i: int| 0 <= i < vp_s.len() ==> !in_keys(m0.fields@, (#[trigger] vp_s[i]).0),", "not_yet(m0.fields@, vp_s, n);", body, done) + " proof { assert(vp_s.take(vp_s.len() as int) =~= vp_s); }"
    return ADD % (it, a, b, "", "", body, done) + " proof { assert(vp_s.take(vp_s.len() as int) =~= vp_s); }"
def rm_loop(sl, ids, a, body, live):
    return ("let vp_s = %s; let ghost vp_ids = %s; let ghost m0 = *model; proof { start(m0, Seq::empty(), vp_ids, Map::empty()); } let mut vp_i: usize = 0; while vp_i < vp_s.len() invariant vp_i <= vp_s@.len(), vp_ids == %s, removing(m0, *model, vp_ids, vp_i as int), m0.delta.cur() + vp_s@.len() < u64::MAX, %s ensures vp_i == vp_s@.len() decreases vp_s@.len() - vp_i { let %s = &vp_s[vp_i]; let ghost m1 = *model; proof { reveal(later); assert(vp_ids[vp_i as int] == %s@); %s } vp_i = vp_i + 1; %s proof { later_more(m0, m1, *model, vp_i - 1, 1); } }"
      % (sl, ids % "vp_s@", ids % "vp_s@", ("hist(m0), " if live else "") + ("forall|i: int| 0 <= i < vp_ids.len() ==> in_keys(m0.fields@, #[trigger] vp_ids[i]) && vp_ids[i] != m0.p_key@, forall|i: int, j: int| 0 <= i < j < vp_ids.len() ==> vp_ids[i] != vp_ids[j]" if live else "pks_differ(vp_ids, m0.p_key@)"), a, a, "reveal(hist); rm_keeps(m0.fields@, vp_ids, vp_i as nat, m0.p_key@);" if live else "", body))
def up_loop(it, a, b, body, live, ordered):
    return ("let mut vp_it = %s; let ghost m0 = *model; let ghost vp_u = vp_it@; proof { start(m0, Seq::empty(), Seq::empty(), vp_u); } while let Some((%s, %s)) = vp_it.next() invariant vp_it@.dom().subset_of(vp_u.dom()), forall|k: Seq<char>| #[trigger] vp_it@.dom().contains(k) ==> vp_it@[k] == vp_u[k], uniq_keys(m0.fields@), retyping(m0, *model, vp_u, vp_it@)%s ensures vp_it@ =~= Map::empty() decreases vp_it@.dom().len() { let ghost m1 = *model; let ghost vp_l = vp_it@.insert(%s@, vp_u[%s@]); proof { reveal(later); } %s proof { retyped_one(m0, m1, *model, vp_u, vp_l, %s@); assert(vp_l.remove(%s@) =~= vp_it@); } } proof { assert(vp_u.remove_keys(vp_it@.dom()) =~= vp_u); }"
      % (it, a, b, ", forall|k: Seq<char>| #[trigger] vp_u.dom().contains(k) ==> in_keys(m0.fields@, k)" if live else "", a, a, body, a, a))
PREP = r'''
proof fn prep(m: ModelData, a: AlterModel) requires hist(m) ensures plan_ok(m, a.kind) ==> (match a.kind {
    AlterKind::Remove(r) => (forall|i: int| 0 <= i < r@.len() ==> in_keys(m.fields@, #[trigger] names(r@)[i]) && names(r@)[i] != m.p_key@) && (forall|i: int, j: int| 0 <= i < j < r@.len() ==> names(r@)[i] != names(r@)[j]),
    AlterKind::Add(s) => uniq_keys(new_ones(s@)) && (forall|i: int| 0 <= i < s@.len() ==> !in_keys(m.fields@, (#[trigger] new_ones(s@)[i]).0)),
    AlterKind::Update(s) => forall|k: Seq<char>| #[trigger] as_map(upds(m, s@)).dom().contains(k) ==> in_keys(m.fields@, k) })
{
    if plan_ok(m, a.kind) { match a.kind {
        AlterKind::Remove(r) => { assert forall|i: int| 0 <= i < r@.len() implies in_keys(m.fields@, #[trigger] names(r@)[i]) && names(r@)[i] != m.p_key@ by { assert(rm_one(m, r@[i])); } assert forall|i: int, j: int| 0 <= i < j < r@.len() implies names(r@)[i] != names(r@)[j] by { assert(r@[i]@ != r@[j]@); } }
        AlterKind::Add(s) => { fresh_new(s@); assert forall|i: int| 0 <= i < s@.len() implies !in_keys(m.fields@, (#[trigger] new_ones(s@)[i]).0) by { assert(add_ok(m, s@[i])); } }
        AlterKind::Update(s) => { fresh_upd(m, s@); assert forall|k: Seq<char>| #[trigger] as_map(upds(m, s@)).dom().contains(k) implies in_keys(m.fields@, k) by { map_has(upds(m, s@), k); } }
    } }
}
'''
MUTATOR = [(r"let mut mutator = model\.model_mutator\(\);", ""), ]
def mut(t): return re.sub(r"\bmutator\.", "model.", t)
def strs(t): return re.sub(r"&?(field_id)(?:\.as_ref\(\))?(?=,)", r"vp_bs(&\1)", t)
EXEC = [(r"global\s*\.state\(\)\s*\.namespace\(\)\s*\.with_model_space_mut_for_ddl\(alter\.model, \|space, model\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}"),
    (r"global\s*\.state\(\)\s*\.gns_driver\(\)\s*\.driver_context\(\s*global,\s*\|drv\|\s*drv\.commit_event\(txn\),\s*\|\| (?:\{\}|\{[^;{}]*\}),?\s*\)", "global.commit(txn)"), (r"gns::model::", ""), (r"&space_name, &?space, &model_name", "space_name, space, model_name"),
    (r"(?<=, )&removed,", "vp_box_slice(&removed),"),
    (r"(\w+)\s*\.stseq_ord_kv\(\)\s*\.map\(\|\((\w+), (\w+)\)\| \(\2\.clone\(\), \3\.clone\(\)\)\)\s*\.for_each\(\|\((\w+), (\w+)\)\| \{([^{}]*)\}\);", lambda m: "{ " + add_loop(m.group(1) + ".kv_copies()", m.group(4), m.group(5), mut(m.group(6)), True) + " }"),
    (r"(\w+)\.iter\(\)\.for_each\(\|(\w+)\| \{([^{}]*)\}\);", lambda m: "{ " + rm_loop("vp_box_slice(&%s)" % m.group(1), "names(%s)", m.group(2), mut(m.group(3)), True) + " }"),
    (r"(\w+)\.into_iter\(\)\.for_each\(\|\((\w+), (\w+)\)\| \{([^{}]*)\}\);", lambda m: "{ " + up_loop(m.group(1) + ".unordered()", m.group(2), m.group(3), strs(mut(m.group(4))), True, False) + " }")] + MUTATOR
ROW = [(r"let rwl_ug = self\.d_data\(\)\.upgradable_read\(\);", ""), (r"iff\(&rwl_ug\)", "iff(wl)"), (r"return RwLockUpgradableReadGuard::downgrade\(rwl_ug\);", "return;"), (r"return RwLockWriteGuard::downgrade\(wl\);", "return;"), (r"let mut wl = RwLockUpgradableReadGuard::upgrade\(rwl_ug\);", ""),
    (r"(?:compiler::)?(?:un)?likely\((\w+) (<=|<|>=|>|==|!=) rwl_ug\.txn_revised_schema_version\)", r"\1.0 \2 wl.txn_revised_schema_version.0"), (r"for \((\w+), (\w+)\) in ([\w.]+\([\w.]+\)) \{", r"let mut vp_it = \3; let ghost v0 = old(wl).txn_revised_schema_version.0; let ghost c0 = old(wl).fields@; proof { all_changes(*delta_state, (v0 + 1) as u64, vp_it@); } while let Some((\1, \2)) = vp_it.next() invariant delta_state.ok(), v0 < delta_state.cur(), vp_it@.len() <= delta_state.cur() - v0, vp_it@ == changes(*delta_state, v0 + 1).skip(delta_state.cur() - v0 - vp_it@.len()), max_delta.0 == delta_state.cur() - vp_it@.len(), wl.fields@ == row_at(c0, *delta_state, v0 as int, max_delta.0 as int), wl.txn_revised_data == old(wl).txn_revised_data ensures vp_it@.len() == 0 decreases vp_it@.len() { proof { assert(changes(*delta_state, v0 + 1)[delta_state.cur() - v0 - vp_it@.len() - 1] == ((delta_state.cur() - vp_it@.len()) as u64, delta_state.at(delta_state.cur() - vp_it@.len()))); }"), (r"unsafe \{", "{")]
NAMES = [(r"self\.fields\.stseq_ord_key\(\)\.map\(\|(\w+)\| \1\.clone\(\)\)\.collect\(\)", "self.fields.key_copies()"), (r"unsafe \{", "{"), (r"\(?\*(\w+)\)?\.min\(fields\.len\(\)\)", r"vp_min(*\1, fields.len())"),
    (r"for \(_, (\w+)\) in (self\.delta\.resolve_iter_since\(\w+\))\.rev\(\) \{", r"let vp_r = \2; proof { all_changes(self.delta, (schema_version.0 + 1) as u64, vp_r@); } let mut vp_it = vp_r.rev(); let ghost v = schema_version.0 as int; let ghost c = self.delta.cur() as int; let ghost ks = keys_of(self.fields@); proof { assert(raws(fields@) =~= ks); assert(v <= c ==> changes(self.delta, v + 1).reverse().skip(0) =~= changes(self.delta, v + 1).reverse()); } while let Some((_, \1)) = vp_it.next() invariant v <= c ==> vp_it@.len() <= c - v && vp_it@ == changes(self.delta, v + 1).reverse().skip(c - v - vp_it@.len()) && c - v - vp_it@.len() >= 0 && back(raws(fields@), self.delta, v + vp_it@.len(), v) == back(ks, self.delta, c, v), v > c ==> vp_it@.len() == 0 && raws(fields@) == ks, c == self.delta.cur() ensures vp_it@.len() == 0 decreases vp_it@.len() { let ghost f0 = raws(fields@); proof { let n = v + vp_it@.len() + 1; assert(changes(self.delta, v + 1).reverse()[c - n] == (n as u64, self.delta.at(n))); back_open(f0, self.delta, n, v); raws_undo(fields@); }")]
RAWS = r'''
proof fn done(a: ModelData, b: ModelData)
    requires hist(a), b.delta.ok(), uniq_keys(b.fields@), in_keys(b.fields@, b.p_key@), b.delta.cur() == a.delta.cur() + 1, b.delta.agrees(a.delta, a.delta.cur() as int), b.p_key == a.p_key, b.p_tag == a.p_tag, b.uuid == a.uuid, b.data == a.data,
        undo(keys_of(b.fields@), b.delta.at(b.delta.cur() as int)) == keys_of(a.fields@), step_is(keys_of(a.fields@), keys_of(b.fields@), b.delta.at(b.delta.cur() as int), a.p_key@)
    ensures hist(b), later(a, b, 1) { one_more(a, b); }
pub open spec fn raws(s: Seq<RawStr>) -> Seq<Seq<char>> { s.map_values(|r: RawStr| r@) }
proof fn back_open(ks: Seq<Seq<char>>, ds: DeltaState, n: int, v: int) requires n > v ensures back(ks, ds, n, v) == back(undo(ks, ds.at(n)), ds, n - 1, v) {}
proof fn raws_undo(s: Seq<RawStr>) ensures s.len() > 0 ==> raws(s.drop_last()) == raws(s).drop_last(), forall|p: int, r: RawStr| 0 <= p <= s.len() ==> raws(#[trigger] s.insert(p, r)) == raws(s).insert(p, r@)
{ if s.len() > 0 { assert(raws(s.drop_last()) =~= raws(s).drop_last()); } assert forall|p: int, r: RawStr| 0 <= p <= s.len() implies raws(#[trigger] s.insert(p, r)) == raws(s).insert(p, r@) by { assert(raws(s.insert(p, r)) =~= raws(s).insert(p, r@)); } }
pub open spec fn pks_differ(ids: Seq<Seq<char>>, pk: Seq<char>) -> bool { forall|i: int| 0 <= i < ids.len() ==> #[trigger] ids[i] != pk }
'''
SAME = "final(self).p_key == old(self).p_key, final(self).p_tag == old(self).p_tag, final(self).uuid == old(self).uuid, final(self).data == old(self).data"
MUT = [(r"self\.model\.delta\.(unresolved_append_field_(?:add|rem)\([^;]*\));", r"self.delta.\1; proof { if r { done(m0, *self); } }"), (r"self\s*\.model(?=\s*\.(?!delta))", "self"), (r"unsafe \{", "{"), (r"\.stseq_ord_key\(\)\s*\.position\(\|(\w+)\| \1\.as_str\(\) == name\)\s*\.unwrap_or_default\(\)", ".position_of(name).unwrap_or(0)")]
def mutsub(_): return MUT
UPD = [(r"match self\s*\.model\s*\.fields\.st_get_mut\(name\) (\{(?:[^{}]|\{[^{}]*\})*\})(?=\s*\}\s*$)", r"let vp_r = match self.fields.st_get_mut(name) \1; proof { if vp_r { keys_upd(m0.fields@, pos(m0.fields@, name@), self.fields@[pos(m0.fields@, name@)].1); assert(self.fields@ =~= m0.fields@.update(pos(m0.fields@, name@), (name@, field.v()))); } assert(keys_of(self.fields@) == keys_of(m0.fields@)); later_same(m0, *self); hist_same(m0, *self); } vp_r")]
GNSM = [("gns: &GNSData", "model: &mut ModelData"), ("fn update_global_state", "fn replay_%s")]
def REP(kind): return [(r"with_model_mut\(gns, &model_id\.space_id, &model_id, \|model\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}"), (r"TransactionError::(\w+)\.into\(\)", r"RestoreError::\1")] + MUTATOR + {
    "add": [(r"for \((\w+), (\w+)\) in (\w+\.stseq_owned_kv\(\)) \{((?:[^{}]|\{[^{}]*\})*)\}", lambda m: add_loop(m.group(3), m.group(1), m.group(2), fixerr(mut(m.group(4))), False))],
    "remove": [(r"for (\w+) in (\w+)\.iter\(\) \{((?:[^{}]|\{[^{}]*\})*)\}", lambda m: rm_loop("vp_box_slice(&%s)" % m.group(2), "boxes(%s)", m.group(1), fixerr(mut(m.group(3)).replace("remove_field(&%s)" % m.group(1), "remove_field(vp_bs(%s))" % m.group(1))), False))],
    "update": [(r"for \((\w+), (\w+)\) in (\w+)\.stseq_owned_kv\(\) \{((?:[^{}]|\{[^{}]*\})*)\}", lambda m: up_loop(m.group(3) + ".unordered()", m.group(1), m.group(2), fixerr(strs(mut(m.group(4)))), False, True))]}[kind]
def fixerr(t): return re.sub(r"TransactionError::(\w+)\.into\(\)", r"RestoreError::\1", t)
DV = "#[derive(Clone, Copy)]"
IDR = "ensures r.space_id.name@ == space_id.name@"
i0 = next(i for i, x in enumerate(ITEMS) if isinstance(x, Raw) and x.text is SPEC)
im = next(i for i, x in enumerate(ITEMS) if getattr(x, "name", "") == "ModelData")
# a new model has an empty history
for it in ITEMS:
    if getattr(it, "name", "") == "ModelData::new_with_private": it.kw["spec"] += ", r.delta.cur() == 0, r.delta.ok()"
    if getattr(it, "name", "") == "ModelData::process_create":
        it.kw["spec"] = cut(it.kw["spec"], ("Ok(m) => ", "Ok(m) => hist(m) && "))
        it.kw["sub"] = it.kw["sub"] + [(r"return Ok\((Self::new_with_private\((?:[^()]|\(\))*\))\);", r"{ let vp_m = \1; proof { hist_new(vp_m, s); } return Ok(vp_m); }")]
ITEMS = ITEMS[:i0] + [Raw(BASE), Raw(DELTA), Ty(DE, "DeltaVersion", attr=DV), Ty(DE, "SchemaDeltaKind"), Ty(DE, "SchemaDeltaPart"),
    Ty(DE, "DeltaState", sub=[(r"BTreeMap<DeltaVersion, SchemaDeltaPart>", "BMap"), (r"Queue<DataDelta>", "DataQueue")])] + ITEMS[i0 + 1:] + [
 Raw(DELTA2), Raw(RAWS), Ty(RW, "RowData"), Raw(MORE), Raw(PREP),
 *[Fn(DE, "DeltaVersion::" + f, spec=s) for f, s in (("genesis", "ensures r.0 == 0"), ("__new", "ensures r.0 == v"), ("step", "requires self.0 < u64::MAX ensures r.0 == self.0 + 1"), ("value_u64", "ensures r == self.0"))],
 Fn(DE, "SchemaDeltaPart::kind", spec="ensures *r == self.kind"), Fn(DE, "SchemaDeltaPart::new", spec="ensures r.kind == kind"),
 Fn(DE, "SchemaDeltaPart::field_add", spec="ensures r.d() == D::Add(field_name@)"), Fn(DE, "SchemaDeltaPart::field_rem", spec="ensures r.d() == D::Rem(field_name@, position as int)"),
 Fn(DE, "DeltaState::new_resolved", sub=[(r"BTreeMap::new\(\)", "BMap::new()"), (r"Queue::new\(\)", "DataQueue::new()")], spec="ensures r.cur() == 0, r.ok()"),
 Fn(DE, "DeltaState::schema_current_version", spec="ensures r.0 == self.cur()"),
 Fn(DE, "DeltaState::resolve_iter_since", sig_sub=[("Range<DeltaVersion, SchemaDeltaPart>", "BRange<'_>")], sub=[(r"\.range\(((?:[^().]|\.|\(\))*)\.\.\)", r".from(\1)")], spec="requires current_version.0 < u64::MAX ensures range_of(self.schema_deltas@, (current_version.0 + 1) as u64, r@)"),
 Fn(DE, "DeltaState::__schema_delta_step", spec="requires old(self).cur() < u64::MAX ensures r.0 == old(self).cur() + 1, final(self).cur() == r.0, final(self).schema_deltas == old(self).schema_deltas"),
 *[Fn(DE, "DeltaState::" + f, spec="requires old(self).cur() < u64::MAX, old(self).ok() ensures final(self).ok(), final(self).cur() == old(self).cur() + 1, final(self).agrees(*old(self), old(self).cur() as int), final(self).at(final(self).cur() as int) == %s" % d)
   for f, d in (("__schema_append_unresolved_delta", "part.d()"), ("unresolved_append_field_add", "D::Add(field_name@)"), ("unresolved_append_field_rem", "D::Rem(field_name@, position as int)"))],
 Fn(RW, "Row::resolve_schema_deltas_and_freeze_if", free=True, sub=ROW, sig_sub=[("<'g>", ""), ("&'g self", "wl: &mut RowData"), ("RwLockReadGuard<'g, RowData>", "()")], loops_optional=True,
    spec="""requires delta_state.ok(), old(wl).txn_revised_schema_version.0 <= delta_state.cur(), call_requires(iff, (&*old(wl),))
      ensures final(wl).txn_revised_data == old(wl).txn_revised_data, exists|b: bool| #[trigger] call_ensures(iff, (&*old(wl),), b) && (if b { final(wl).fields@ == row_at(old(wl).fields@, *delta_state, old(wl).txn_revised_schema_version.0 as int, delta_state.cur() as int) && final(wl).txn_revised_schema_version.0 == delta_state.cur() } else { *final(wl) == *old(wl) })"""),
 Fn(RW, "Row::resolve_schema_deltas_and_freeze", free=True, closures_optional=True, sub=[(r"self\.resolve_schema_deltas_and_freeze_if\(delta_state, \|_\| true\)", "resolve_schema_deltas_and_freeze_if(wl, delta_state, |vp_x: &RowData| -> (r: bool) ensures r { true })")], sig_sub=[("<'g>", ""), ("&'g self", "wl: &mut RowData"), ("RwLockReadGuard<'g, RowData>", "()")],
    spec="""requires delta_state.ok(), old(wl).txn_revised_schema_version.0 <= delta_state.cur()
      ensures final(wl).txn_revised_data == old(wl).txn_revised_data, final(wl).fields@ == row_at(old(wl).fields@, *delta_state, old(wl).txn_revised_schema_version.0 as int, delta_state.cur() as int), final(wl).txn_revised_schema_version.0 == delta_state.cur()"""),
 Fn(MO, "ModelData::delta_state", spec="ensures *r == self.delta"), Fn(MO, "ModelData::get_uuid", spec="ensures r == self.uuid"),
 Fn(MO, "ModelData::field_names_at", sub=NAMES, closures_optional=True, loops_optional=True, spec="requires self.delta.ok(), schema_version.0 < u64::MAX ensures raws(r@) == names_at(*self, schema_version.0 as int)"),
 Fn(MO, "ModelMutator::add_field", header="impl ModelData", sub=mutsub("name@"), closures_optional=True,
    spec="requires hist(*old(self)), old(self).delta.cur() < u64::MAX ensures " + SAME + ", r == !in_keys(old(self).fields@, name@), r ==> hist(*final(self)) && later(*old(self), *final(self), 1) && final(self).fields@ == old(self).fields@.push((name@, field.v()))",
    hints={"start": "let ghost m0 = *self; proof { reveal(hist); if !in_keys(m0.fields@, name@) { put(m0.fields@, name@, field.v(), m0.p_key@); } }"}),
 Fn(MO, "ModelMutator::remove_field", header="impl ModelData", sub=mutsub("name@"), closures_optional=True,
    spec="requires hist(*old(self)), old(self).delta.cur() < u64::MAX, name@ != old(self).p_key@ ensures " + SAME + ", r == in_keys(old(self).fields@, name@), r ==> hist(*final(self)) && later(*old(self), *final(self), 1) && final(self).fields@ == without(old(self).fields@, name@)",
    hints={"start": "let ghost m0 = *self; proof { reveal(hist); at_all(m0.fields@); if in_keys(m0.fields@, name@) { taken(m0.fields@, name@, m0.p_key@); } }"}),
 Fn(MO, "ModelMutator::update_field", header="impl ModelData", sub=UPD, hints={"start": "let ghost m0 = *self; proof { reveal(hist); }"},
    spec="requires hist(*old(self)) ensures " + SAME + ", r == in_keys(old(self).fields@, name@), hist(*final(self)), later(*old(self), *final(self), 0), final(self).fields@ == (if r { old(self).fields@.update(pos(old(self).fields@, name@), (name@, field.v())) } else { old(self).fields@ })"),
 Ty(TS, "SpaceIDRef"), Ty(TS, "ModelIDRef"), Raw("impl<'a> ModelIDRef<'a> { pub open spec fn id(&self) -> Id { Id { space: self.space_id.name@, name: self.model_name@, uuid: self.model_uuid, version: self.model_version } } }"),
 Fn(TS, "SpaceIDRef::with_uuid", spec="ensures r.name@ == name@, r.uuid == uuid"), Fn(TS, "SpaceIDRef::new", spec="ensures r.name@ == name@, r.uuid == space.uuid"),
 Fn(TS, "ModelIDRef::new", spec="ensures r.id() == (Id { space: space_id.name@, name: model_name@, uuid: model_uuid, version: model_version }), r.space_id == space_id"),
 Fn(TS, "ModelIDRef::new_ref", spec="ensures r.id() == (Id { space: space_name@, name: model_name@, uuid: model.uuid, version: model.delta.cur() }), r.space_id.uuid == space.uuid"),
 Ty(TM, "AlterModelAddTxn", sub=[(r"IndexSTSeqCns<Box<str>, Field>", "Idx<Box<str>>")]), Raw("impl<'a> Txn for AlterModelAddTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Add(self.model_id.id(), self.new_fields@) } }"), Fn(TM, "AlterModelAddTxn::new", sig_sub=[("IndexSTSeqCns<Box<str>, Field>", "Idx<Box<str>>")], spec="ensures r.ev() == Ev::Add(model_id.id(), new_fields@)"),
 Ty(TM, "AlterModelRemoveTxn"), Raw("impl<'a> Txn for AlterModelRemoveTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Remove(self.model_id.id(), names(self.removed_fields@)) } }"), Fn(TM, "AlterModelRemoveTxn::new", spec="ensures r.ev() == Ev::Remove(model_id.id(), names(removed_fields@))"),
 Ty(TM, "AlterModelUpdateTxn", sub=[(r"IndexST<Box<str>, Field>", "Idx<Box<str>>")]), Raw("impl<'a> Txn for AlterModelUpdateTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Update(self.model_id.id(), self.updated_fields@) } }"), Fn(TM, "AlterModelUpdateTxn::new", sig_sub=[("IndexST<Box<str>, Field>", "Idx<Box<str>>")], spec="ensures r.ev() == Ev::Update(model_id.id(), updated_fields@)"),
 Fn(AL, "ModelData::transactional_exec_alter", sub=EXEC, loops_optional=True, closures_optional=True, sig_sub=[("<G: GlobalInstanceLike>", ""), ("global: &G", "global: &mut Journal, model: &mut ModelData, space: &Space")],
    hints={"start": "let ghost m00 = *model; proof { reveal(hist); prep(m00, alter); later_same(m00, m00); }"},
    spec="""requires hist(*old(model)), old(model).delta.cur() + versions(alter.kind) < u64::MAX
      ensures (match r {
        Ok(_) => plan_ok(*old(model), alter.kind) && plan_free(*old(model), alter.kind) && hist(*final(model)) && later(*old(model), *final(model), versions(alter.kind)) && final(model).fields@ =~= altered(*old(model), alter.kind)
            && final(global).log() == (if nothing_to_do(*old(model), alter.kind) { old(global).log() } else { old(global).log().push(event(alter, *old(model))) }),
        Err(e) => *final(model) == *old(model) && final(global).log() == old(global).log() && (e is SysTransactionalError || !plan_ok(*old(model), alter.kind) || !plan_free(*old(model), alter.kind)) })"""),
 Raw("pub struct ModelIDRes { pub x: u8 }"), Ty(GM, "AlterModelAddTxnRestorePL", sub=[(r"IndexSTSeqCns<Box<str>, Field>", "Idx<Box<str>>")]), Ty(GM, "AlterModelRemoveTxnRestorePL"), Ty(GM, "AlterModelUpdateTxnRestorePL", sub=[(r"IndexSTSeqCns<Box<str>, Field>", "Idx<Box<str>>")]),
 *[Fn(GM, "<AlterModel%sTxn as GNSEvent>::update_global_state" % k, free=True, sub=REP(k.lower()), loops_optional=True, closures_optional=True, sig_sub=[("gns: &GNSData", "model: &mut ModelData"), ("fn update_global_state", "fn replay_" + k.lower()), ("Self::RestoreType", "AlterModel%sTxnRestorePL" % k)],
    spec="requires hist(*old(model)), old(model).delta.cur() + (%s) < u64::MAX%s ensures r is Ok ==> hist(*final(model)) && later(*old(model), *final(model), %s) && final(model).fields@ =~= %s" % (n, x, n, f), hints={"start": "let ghost m00 = *model; proof { reveal(hist); later_same(m00, m00); }"})
   for k, n, x, f in (("Add", "arg.new_fields@.len() as int", "", "old(model).fields@ + arg.new_fields@"), ("Remove", "arg.removed_fields@.len() as int", ", pks_differ(boxes(arg.removed_fields@), old(model).p_key@)", "removed(old(model).fields@, boxes(arg.removed_fields@), arg.removed_fields@.len())"), ("Update", "0", ", uniq_keys(arg.updated_fields@)", "retyped(old(model).fields@, as_map(arg.updated_fields@))"))],
]
