"""P03, P06, P07, P08: the statements on rows (core/dml/{sel,ins,upd,del}.rs), for every model, every row and every statement

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * concurrency: the body of the closure that runs with the model (`with_model` / `with_model_for_data_update`) becomes the body of the
   function, with the model as a parameter; epochs, latches and row locks are dropped (P23 is not claimed), and so are data versions;
 * the delta that reports a change to the storage engine is appended to a ghost log (its kind and the row);
 * the table of operators `OPERATOR[opc(class, op)](cell, rhs)` becomes `vp_op`, the checks of a field `conf` / `conf_el`: their contracts
   are those decided by Kani in place under P07 and P06;
 * iterators over fields and inserted values become external types with the remaining elements as their view; the loop that undoes
   changes, `into_iter().rev().for_each`, pops from the end;
 * generic sinks of select (`f_mdl`, `f`, `cellfn`) are instantiated with the closures that select_resp and select_all_resp pass.
"""
include("fields")
IN, UP, DE, SL = ("server/src/engine/core/dml/%s.rs" % x for x in ("ins", "upd", "del", "sel"))
QI, QU, QD, QM = ("server/src/engine/ql/dml/%s.rs" % x for x in ("ins", "upd", "del", "mod"))
CM = "server/src/engine/core/dml/mod.rs"
DML = r'''
pub type Name = Seq<char>;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum QueryError { QExecDmlValidationError, QExecUnknownField, QExecDmlRowNotFound, QExecDmlDuplicate, SysOutOfMemory, QExecDmlWhereHasUnindexedColumn }
pub type QueryResult<T> = Result<T, QueryError>;
pub fn cold_rerr<T>(e: QueryError) -> (r: QueryResult<T>) ensures r == Err::<T, QueryError>(e) { Err(e) }
// ---- names
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ident<'a> { x: &'a str }
impl<'a> Ident<'a> { pub uninterp spec fn view(&self) -> Name; #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct RawStr { x: u8 }
impl RawStr { pub uninterp spec fn view(&self) -> Name; #[verifier::external_body] pub fn clone(&self) -> (r: RawStr) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// ---- an external queue of remaining elements
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VIter<T> { x: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn of(v: Vec<T>) -> (r: Self) ensures r@ == v@, v@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures (match r { Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() }
}
#[verifier::external_body] fn vp_unwrap<T>(x: Option<T>) -> (r: T) requires x is Some ensures r == x->0 { unimplemented!() }
// ---- the ordered index of the fields of a model. TRUSTED: the contract decided under P20
#[verifier::external_body] pub struct Fields { x: u8 }
pub open spec fn names(s: Seq<(Name, Field)>) -> Seq<Name> { s.map_values(|p: (Name, Field)| p.0) }
pub open spec fn uniq_names(s: Seq<(Name, Field)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn in_f(s: Seq<(Name, Field)>, n: Name) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n }
pub open spec fn fld(s: Seq<(Name, Field)>, n: Name) -> Field { s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n].1 }
#[verifier::external_body] pub struct KvIter<'a> { x: &'a u8 }
impl<'a> KvIter<'a> {
    pub uninterp spec fn view(&self) -> Seq<(Name, Field)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a RawStr, &'a Field)>) ensures (match r { Some((n, f)) => old(self)@.len() > 0 && (n@, *f) == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() }
}
impl Fields {
    pub uninterp spec fn view(&self) -> Seq<(Name, Field)>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn stseq_ord_kv(&self) -> (r: KvIter) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn key_at(&self, i: usize) -> (r: &RawStr) requires i < self@.len() ensures r@ == self@[i as int].0 { unimplemented!() }
    #[verifier::external_body] pub fn stext_get_key_value(&self, k: &str) -> (r: Option<(&RawStr, &Field)>) ensures (match r { Some((n, f)) => in_f(self@, k@) && n@ == k@ && *f == fld(self@, k@), None => !in_f(self@, k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn st_get(&self, k: &str) -> (r: Option<&Field>) ensures (match r { Some(f) => in_f(self@, k@) && *f == fld(self@, k@), None => !in_f(self@, k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn st_contains(&self, k: &str) -> (r: bool) ensures r == in_f(self@, k@) { unimplemented!() }
}
// ---- the other columns of a row: a hash map. TRUSTED: std HashMap (st_insert keeps what is there)
#[verifier::external_body] pub struct DcFieldIndex { x: u8 }
pub type Cols = Map<Name, V>;
impl DcFieldIndex {
    pub uninterp spec fn view(&self) -> Cols;
    #[verifier::external_body] pub fn idx_init_cap(n: usize) -> (r: Self) ensures r@ == Map::<Name, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn st_insert(&mut self, k: RawStr, v: Datacell) -> (r: bool) ensures r == !old(self)@.dom().contains(k@), final(self)@ == (if r { old(self)@.insert(k@, v.v()) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<Datacell>) ensures final(self)@ == old(self)@.remove(k@), (match r { Some(v) => old(self)@.dom().contains(k@) && v.v() == old(self)@[k@], None => !old(self)@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn st_get(&self, k: &str) -> (r: Option<&Datacell>) ensures (match r { Some(v) => self@.dom().contains(k@) && v.v() == self@[k@], None => !self@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &RawStr) -> (r: Option<&Datacell>) ensures (match r { Some(v) => self@.dom().contains(k@) && v.v() == self@[k@], None => !self@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn st_get_mut(&mut self, k: &str) -> (r: Option<&mut Datacell>) ensures (match r { Some(v) => old(self)@.dom().contains(k@) && (*v).v() == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, (*final(v)).v()), None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn st_update(&mut self, k: &str, v: Datacell) -> (r: bool) ensures r == old(self)@.dom().contains(k@), final(self)@ == (if r { old(self)@.insert(k@, v.v()) } else { old(self)@ }) { unimplemented!() }
    /// the list in this column, to be changed (`st_get(..).and_then(Datacell::try_list)` and its write lock)
    #[verifier::external_body] pub fn list_mut(&mut self, k: &str) -> (r: Option<&mut Vec<Datacell>>) ensures (match r { Some(l) => old(self)@.dom().contains(k@) && old(self)@[k@] is List && cells((*l)@) == old(self)@[k@]->List_0 && final(self)@ == old(self)@.insert(k@, V::List(cells((*final(l))@))),
        None => (old(self)@.dom().contains(k@) ==> !(old(self)@[k@] is List)) && final(self)@ == old(self)@ }) { unimplemented!() }
}
// ---- keys. ASSUMED: the contracts decided under P08
#[verifier::external_body] pub struct PrimaryIndexKey { x: u8 }
impl PrimaryIndexKey {
    pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body] pub fn new_from_dc(d: Datacell) -> (r: Self) requires !(d.v() is Null), !(d.v() is List) ensures r.v() == d.v() { unimplemented!() }
}
// ---- the model
pub struct ModelData { pub flds: Fields, pub pk: String, pub ptag: FullTag }
impl ModelData {
    pub fn fields(&self) -> (r: &Fields) ensures *r == self.flds { &self.flds }
    pub fn p_key(&self) -> (r: &str) ensures r@ == self.pk@ { self.pk.as_str() }
    pub fn p_tag(&self) -> (r: FullTag) ensures r == self.ptag { self.ptag }
    pub open spec fn f(&self) -> Seq<(Name, Field)> { self.flds@ }
    /// what CREATE MODEL establishes (P17): names are different, the primary key is one of the fields and neither nullable nor a list, a list has an element type
    pub open spec fn wf(&self) -> bool { uniq_names(self.f()) && in_f(self.f(), self.pk@) && !fld(self.f(), self.pk@).nullable() && fld(self.f(), self.pk@).class() != TagClass::List
        && fw(self.f()) }
}
/// every field has a declared type
#[verifier::opaque] pub open spec fn fw(s: Seq<(Name, Field)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.wf() }
proof fn fw_all(s: Seq<(Name, Field)>) requires fw(s), uniq_names(s) ensures forall|k: Name| in_f(s, k) ==> (#[trigger] fld(s, k)).wf() {
    reveal(fw); assert forall|k: Name| in_f(s, k) implies (#[trigger] fld(s, k)).wf() by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; fld_at(s, i); }
}
proof fn fw_at(s: Seq<(Name, Field)>, i: int) requires fw(s) ensures 0 <= i < s.len() ==> s[i].1.wf() { reveal(fw); }
proof fn conf_pk(m: ModelData) requires m.wf() ensures forall|v: V| #[trigger] conf(fld(m.f(), m.pk@), v) is Some ==> !(conf(fld(m.f(), m.pk@), v)->0 is Null) && !(conf(fld(m.f(), m.pk@), v)->0 is List) {
    let f = fld(m.f(), m.pk@); fw_all(m.f());
    assert forall|v: V| #[trigger] conf(f, v) is Some implies !(conf(f, v)->0 is Null) && !(conf(f, v)->0 is List) by { conf_class(f, v); reveal(conf); reveal_with_fuel(ok, 1); reveal_with_fuel(out, 2); }
}
proof fn fld_at(s: Seq<(Name, Field)>, i: int) requires uniq_names(s), 0 <= i < s.len() ensures in_f(s, s[i].0), fld(s, s[i].0) == s[i].1 {
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == s[i].0; if j < i { assert(s[j].0 != s[i].0); } else if i < j { assert(s[i].0 != s[j].0); }
}
pub open spec fn fset(s: Seq<(Name, Field)>) -> Set<Name> decreases s.len() { if s.len() == 0 { Set::empty() } else { fset(s.drop_last()).insert(s.last().0) } }
proof fn fset_is(s: Seq<(Name, Field)>) ensures forall|n: Name| #![trigger fset(s).contains(n)] #![trigger in_f(s, n)] fset(s).contains(n) <==> in_f(s, n), uniq_names(s) ==> fset(s).len() == s.len() decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last(); fset_is(t);
        assert forall|n: Name| fset(s).contains(n) <==> in_f(s, n) by {
            if in_f(t, n) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == n; assert(s[i].0 == n); }
            if n == s.last().0 { assert(s[s.len() - 1].0 == n); }
            if in_f(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n; if i < t.len() { assert(t[i].0 == n); } }
        }
        if uniq_names(s) { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); }
            assert(!in_f(t, s.last().0)) by { if in_f(t, s.last().0) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == s.last().0; assert(s[i].0 == s[s.len() - 1].0); } } }
    }
}
'''
INS = r'''
#[verifier::external_body] pub struct IdentMap<'a> { x: &'a u8 }
/// the named values of an insert. TRUSTED: std HashMap (every key once)
impl<'a> IdentMap<'a> {
    pub uninterp spec fn view(&self) -> Cols;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: MapIter<'a>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct MapIter<'a> { x: &'a u8 }
impl<'a> MapIter<'a> {
    pub uninterp spec fn view(&self) -> Cols;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Ident<'a>, Datacell)>) ensures (match r { Some((k, v)) => old(self)@.dom().contains(k@) && v.v() == old(self)@[k@] && final(self)@ == old(self)@.remove(k@), None => old(self)@.dom() =~= Set::empty() && final(self)@ == old(self)@ }) { unimplemented!() }
}
'''
INS2 = r'''
impl<'a> InsertData<'a> {
    pub open spec fn count(self) -> int { match self { InsertData::Ordered(t) => t@.len() as int, InsertData::Map(m) => m@.dom().len() as int } }
    /// the value given for column i of the model / whether there is one
    pub open spec fn has(self, s: Seq<(Name, Field)>, i: int) -> bool { match self { InsertData::Ordered(t) => true, InsertData::Map(m) => m@.dom().contains(s[i].0) } }
    pub open spec fn val(self, s: Seq<(Name, Field)>, i: int) -> V { match self { InsertData::Ordered(t) => t@[i].v(), InsertData::Map(m) => m@[s[i].0] } }
    /// a value for every column and none else, each acceptable for its column
    pub open spec fn ok(self, s: Seq<(Name, Field)>) -> bool { self.count() == s.len() && forall|i: int| 0 <= i < s.len() ==> self.has(s, i) && conf((#[trigger] s[i]).1, self.val(s, i)) is Some }
}
/// exactly the columns with the stored form of the values given, except the primary key
pub open spec fn made_cols(s: Seq<(Name, Field)>, d: InsertData, pk: Name, c: Cols) -> bool {
    (forall|n: Name| #[trigger] c.dom().contains(n) <==> in_f(s, n) && n != pk) && forall|i: int| 0 <= i < s.len() && s[i].0 != pk ==> c[(#[trigger] s[i]).0] == conf(s[i].1, d.val(s, i))->0 }
/// the columns made from the first n fields
pub open spec fn first_cols(s: Seq<(Name, Field)>, d: InsertData, n: int, c: Cols) -> bool {
    (forall|nm: Name| #[trigger] c.dom().contains(nm) <==> in_f(s.take(n), nm)) && forall|i: int| 0 <= i < n ==> c[(#[trigger] s[i]).0] == conf(s[i].1, d.val(s, i))->0 }
proof fn take_in(s: Seq<(Name, Field)>, n: int) requires 0 <= n < s.len(), uniq_names(s) ensures !in_f(s.take(n), s[n].0), forall|nm: Name| in_f(s.take(n + 1), nm) <==> in_f(s.take(n), nm) || nm == s[n].0 {
    if in_f(s.take(n), s[n].0) { let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]).0 == s[n].0; assert(s[i].0 != s[n].0); }
    assert forall|nm: Name| in_f(s.take(n + 1), nm) <==> in_f(s.take(n), nm) || nm == s[n].0 by {
        if in_f(s.take(n), nm) { let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]).0 == nm; assert(s.take(n + 1)[i].0 == nm); }
        assert(s.take(n + 1)[n].0 == s[n].0);
        if in_f(s.take(n + 1), nm) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s.take(n + 1)[i]).0 == nm; if i < n { assert(s.take(n)[i].0 == nm); } }
    }
}
/// an acceptable map names exactly the columns
proof fn map_ok(s: Seq<(Name, Field)>, d: InsertData) requires uniq_names(s), d is Map, d.ok(s) ensures d->Map_0@.dom() =~= fset(s), forall|k: Name| d->Map_0@.dom().contains(k) ==> in_f(s, k) && conf(fld(s, k), d->Map_0@[k]) is Some {
    let m = d->Map_0@; fset_is(s);
    assert(fset(s).subset_of(m.dom())) by { assert forall|k: Name| fset(s).contains(k) implies m.dom().contains(k) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(d.has(s, i)); } }
    vstd::set_lib::lemma_subset_equality(fset(s), m.dom());
    assert forall|k: Name| m.dom().contains(k) implies in_f(s, k) && conf(fld(s, k), m[k]) is Some by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; fld_at(s, i); assert(d.has(s, i)); }
}
proof fn map_done(s: Seq<(Name, Field)>, d: InsertData) requires uniq_names(s), d is Map, d.count() == s.len(), forall|k: Name| #[trigger] d->Map_0@.dom().contains(k) ==> in_f(s, k) && conf(fld(s, k), d->Map_0@[k]) is Some ensures d.ok(s), d->Map_0@.dom() =~= fset(s) {
    let m = d->Map_0@; fset_is(s);
    assert(m.dom().subset_of(fset(s)));
    vstd::set_lib::lemma_subset_equality(m.dom(), fset(s));
    assert forall|i: int| 0 <= i < s.len() implies d.has(s, i) && conf((#[trigger] s[i]).1, d.val(s, i)) is Some by { fld_at(s, i); assert(m.dom().contains(s[i].0)); }
}
'''
UPD = r"""
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum AssignmentOperator { Assign, AddAssign, SubAssign, MulAssign, DivAssign }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum DataDeltaKind { Insert, Update, Delete }
/// what was reported to the storage engine. ASSUMED: every reported delta is written (P12, P15)
#[verifier::external_body] pub struct Log { x: u8 }
impl Log { pub uninterp spec fn view(&self) -> Seq<DataDeltaKind>; }
pub struct QueryExecMeta { d: usize }
impl QueryExecMeta { pub fn new(d: usize) -> Self { QueryExecMeta { d } } pub fn zero() -> Self { QueryExecMeta { d: 0 } } }
#[verifier::external_body] fn vp_delta(log: &mut Log, k: DataDeltaKind) -> (r: usize) ensures final(log)@ == old(log)@.push(k) { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Lit<'a> { x: &'a u8 }
impl<'a> Lit<'a> {
    pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body] pub proof fn is(&self) ensures class_of(self.v()) is Some, !(self.v() is List) {}
    #[verifier::external_body] pub fn kind(&self) -> (r: FullTag) ensures Some(r.sel.class()) == class_of(self.v()) { unimplemented!() }
}
/// the unsafe read of the class of a field's first layer etc. is dropped; derive(PartialOrd): List is the last class
#[verifier::external_body] fn vp_touch(c: &mut Datacell) ensures final(c).v() == old(c).v() {}
fn vp_below_list(c: TagClass) -> (r: bool) ensures r == (c != TagClass::List) { c != TagClass::List }
#[verifier::external_body] fn vp_cell_of(l: Lit) -> (r: Datacell) ensures r.v() == l.v() { unimplemented!() }
/// the operators of assignment on a value that is not null. ASSUMED: decided under P07 by Kani, for every class and operator
pub uninterp spec fn opv(f: FullTag, op: AssignmentOperator, a: V, b: V) -> Option<V>;
#[verifier::external_body] fn vp_op(c: TagClass, op: AssignmentOperator, a: &Datacell, b: Lit) -> (r: (bool, Datacell)) requires class_of(a.v()) == Some(c), class_of(b.v()) == Some(c), c != TagClass::List
    ensures r.0 == (opv(a.t(), op, wide(a.v()), b.v()) is Some), r.0 ==> r.1.d() == opv(a.t(), op, wide(a.v()), b.v())->0 { unimplemented!() }
#[verifier::external_body] proof fn opv_class(f: FullTag, op: AssignmentOperator, a: V, b: V) ensures opv(f, op, a, b) is Some ==> class_of(opv(f, op, a, b)->0) == Some(f.sel.class()) && wide(opv(f, op, a, b)->0) == opv(f, op, a, b)->0 {}
/// memory may run out
#[verifier::external_body] fn vp_reserve(l: &Vec<Datacell>) -> bool { unimplemented!() }
#[verifier::external_body] fn vp_swap(c: &mut Datacell, n: Datacell) -> (r: Datacell) ensures r.v() == old(c).v(), final(c).v() == n.v() { unimplemented!() }
// ---- the primary index. ASSUMED: P08 (keys are equal exactly when class and value are), P18 (what the pending schema deltas do to a row)
#[verifier::external_body] pub struct Index { x: u8 }
pub uninterp spec fn resolved(m: ModelData, c: Cols) -> Cols;
impl Index { pub uninterp spec fn view(&self) -> Map<V, Cols>; }
#[verifier::external_body] fn vp_select_mut<'a>(i: &'a mut Index, k: Lit) -> (r: Option<&'a mut DcFieldIndex>) ensures (match r { Some(x) => old(i)@.dom().contains(wide(k.v())) && (*x)@ == old(i)@[wide(k.v())] && final(i)@ == old(i)@.insert(wide(k.v()), (*final(x))@), None => !old(i)@.dom().contains(wide(k.v())) && final(i)@ == old(i)@ }) { unimplemented!() }
#[verifier::external_body] fn vp_resolve_row(m: &ModelData, r: &mut DcFieldIndex) ensures final(r)@ == resolved(*m, old(r)@) { unimplemented!() }
/// the clauses of a WHERE, by column. TRUSTED: std HashMap
#[verifier::external_body] pub struct WhereClauseCollection<'a> { x: &'a u8 }
impl<'a> WhereClauseCollection<'a> {
    pub uninterp spec fn view(&self) -> Map<Name, RelationalExpr<'a>>;
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<RelationalExpr<'a>>) ensures final(self)@ == old(self)@.remove(k@), (match r { Some(v) => old(self)@.dom().contains(k@) && v == old(self)@[k@], None => !old(self)@.dom().contains(k@) }) { unimplemented!() }
}
/// the key that a WHERE names: `pk = value` with a value of the class of the key
pub open spec fn key_of(m: ModelData, c: Map<Name, RelationalExpr>) -> Option<V> { if c.dom().contains(m.pk@) && c[m.pk@].opc == 1 && class_of(c[m.pk@].rhs.v()) == Some(m.ptag.sel.class()) { Some(wide(c[m.pk@].rhs.v())) } else { None } }
impl FullTag { /// TRUSTED: the unique tag of a type identifies its class (P09)
    #[verifier::external_body] pub fn tag_unique(&self) -> (r: TagClass) ensures r == self.sel.class() { unimplemented!() } }
impl DcFieldIndex { /// the columns, without the width of the type
    pub open spec fn w(&self) -> Cols { wcols(self@) } }
pub open spec fn wcols(c: Cols) -> Cols { c.map_values(|v: V| wide(v)) }
"""
UPD2 = r"""
/// one assignment: the new row, if it is allowed
pub open spec fn step(m: ModelData, row: Cols, x: AssignmentExpression) -> Option<Cols> {
    let n = x.lhs@;
    if !in_f(m.f(), n) || !row.dom().contains(n) { None } else {
        let f = fld(m.f(), n); let old = row[n]; let c = Some(f.class()); let rc = class_of(x.rhs.v());
        if c == rc && f.class() != TagClass::List && !(old is Null) { match opv(f.ly()[0].tag, x.operator_fn, old, x.rhs.v()) { Some(v) => Some(row.insert(n, v)), None => None } }
        else if c == rc && old is Null && x.operator_fn == AssignmentOperator::Assign { match conf(f, x.rhs.v()) { Some(v) => Some(row.insert(n, wide(v))), None => None } }
        else if f.class() == TagClass::List && x.operator_fn == AssignmentOperator::AddAssign && !(old is Null) {
            if Some(f.ly()[1].tag.sel.class()) == rc { match conf_el(f, x.rhs.v()) { Some(v) => Some(row.insert(n, V::List(old->List_0.push(v)))), None => None } } else { None } }
        else { None } } }
/// the assignments, one after another
pub open spec fn applied(m: ModelData, row: Cols, s: Seq<AssignmentExpression>, n: nat) -> Option<Cols> decreases n { if n == 0 || n > s.len() { Some(row) } else { match applied(m, row, s, (n - 1) as nat) { Some(r) => step(m, r, s[n - 1]), None => None } } }
/// taking a change back
pub open spec fn undo1(row: Cols, n: Name, o: Option<Datacell>) -> Cols { match o { Some(v) => row.insert(n, v.d()), None => row.insert(n, V::List(row[n]->List_0.drop_last())) } }
pub open spec fn undone(row: Cols, log: Seq<(&str, Option<Datacell>)>) -> Cols decreases log.len() { if log.len() == 0 { row } else { undone(undo1(row, log.last().0@, log.last().1), log.drop_last()) } }
/// every entry can be taken back
pub open spec fn can_undo(row: Cols, log: Seq<(&str, Option<Datacell>)>) -> bool decreases log.len() { log.len() == 0 || (row.dom().contains(log.last().0@) && (log.last().1 is None ==> row[log.last().0@] is List && row[log.last().0@]->List_0.len() > 0) && can_undo(undo1(row, log.last().0@, log.last().1), log.drop_last())) }
/// a column of the row is of the class of its field, or null
pub open spec fn row_wf(m: ModelData, row: Cols) -> bool { forall|n: Name| #[trigger] row.dom().contains(n) && in_f(m.f(), n) ==> row[n] is Null || class_of(row[n]) == Some(fld(m.f(), n).class()) }
"""
UPD2 += r"""
proof fn undo_push(r: Cols, r2: Cols, lg: Seq<(&str, Option<Datacell>)>, e: (&str, Option<Datacell>))
    requires undo1(r2, e.0@, e.1) =~= r, r2.dom().contains(e.0@), e.1 is None ==> r2[e.0@] is List && r2[e.0@]->List_0.len() > 0, can_undo(r, lg) ensures can_undo(r2, lg.push(e)), undone(r2, lg.push(e)) == undone(r, lg) { assert(lg.push(e).drop_last() =~= lg); }
proof fn applied_none(m: ModelData, row: Cols, s: Seq<AssignmentExpression>, k: nat, n: nat) requires k <= n <= s.len(), applied(m, row, s, k) is None ensures applied(m, row, s, n) is None decreases n { if k < n { applied_none(m, row, s, k, (n - 1) as nat); } }
proof fn fld_wf(m: ModelData, n: Name) requires m.wf(), in_f(m.f(), n) ensures fld(m.f(), n).ly().len() >= 1, fld(m.f(), n).class() == TagClass::List ==> fld(m.f(), n).ly().len() >= 2 { fw_all(m.f()); reveal(Field::wf); }
proof fn cells_all() ensures forall|l: Seq<Datacell>| l.len() > 0 ==> #[trigger] cells(l.drop_last()) == cells(l).drop_last(), forall|l: Seq<Datacell>, c: Datacell| #[trigger] cells(l.push(c)) == cells(l).push(c.v()) {
    assert forall|l: Seq<Datacell>| l.len() > 0 implies #[trigger] cells(l.drop_last()) == cells(l).drop_last() by { assert(cells(l.drop_last()) =~= cells(l).drop_last()); }
    assert forall|l: Seq<Datacell>, c: Datacell| #[trigger] cells(l.push(c)) == cells(l).push(c.v()) by { assert(cells(l.push(c)) =~= cells(l).push(c.v())); }
}
proof fn first_step(m: ModelData, row0: Cols, s: Seq<AssignmentExpression>, n: nat) requires n < s.len() ensures applied(m, row0, s, (n + 1) as nat) == (match applied(m, row0, s, n) { Some(r) => step(m, r, s[n as int]), None => None }) {}
"""
WHERE = [(r"where_clause\.clauses_mut\(\)\.remove\(self\.p_key\(\)\.as_bytes\(\)\)", "where_clause.clauses_mut().remove(self.p_key())"), (r"compiler::", "")]
UPSUB = [(r"core::with_model_for_data_update\(global, update\.entity\(\), \|mdl\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}"), (r"let g = sync::atm::cpin\(\);", ""), (r"update\.clauses_mut\(\)", "clauses"), (r"mdl\.primary_index\(\)\.select\((\w+), &g\)", r"vp_select_mut(idx, \1)"),
  (r"drop\(row\.resolve_schema_deltas_and_freeze\(mdl\.delta_state\(\)\)\);", "vp_resolve_row(mdl, row);"), (r"let mut row_data_wl = row\.d_data\(\)\.write\(\);", "let ghost row0 = row.w();"), (r"let ds = mdl\.delta_state\(\);", ""), (r"let new_version = ds\.create_new_data_delta_version\(\);", ""),
  (r"let mut rollback_data = Vec::with_capacity\([^;]*\);", "let mut rollback_data: Vec<(&str, Option<Datacell>)> = Vec::new();"), (r"update\.into_expressions\(\)\.into_iter\(\)", "VIter::of(expressions)"), (r"unsafe \{", "{"), (r"(\w+\.next\(\))\.unwrap_unchecked\(\)", r"vp_unwrap(\1)"), (r"input_trace\([^)]*\);", ""), (r"row_data_wl\.fields_mut\(\)\.st_update\(field_id, restored_data\);", "row.st_update(field_id, restored_data); proof { assert(row.w() =~= undo1(row1, rb.last().0@, rb.last().1)); }"),
  (r"row_data_wl\.fields(?:_mut)?\(\)\.st_(?!update\(field_id, restored_data)", "row.st_"),
  (r"(\w+) < TagClass::List", r"vp_below_list(\1)"), (r"OPERATOR\[opc\((\w+), (\w+)\)\]\((\w+), (\w+)\)", r"vp_op(\1, \2, \3, \4)"), (r"(?<!Some\()mem::replace\((\w+), (\w+)\)", r"vp_swap(\1, \2)"), (r"Datacell::from\((\w+)\)", r"vp_cell_of(\1)"), (r"let mut list = field_data\.read_list\(\)\.write\(\);", "let list = vp_list_mut(field_data);"), (r"list\.try_reserve\(1\)\.is_ok\(\)", "vp_reserve(list)"),
  (r"rollback_data\s*\.into_iter\(\)\s*\.rev\(\)\s*\.for_each\(\|\((\w+), (\w+)\)\| match \2 \{", r"loop invariant can_undo(row.w(), rollback_data@), undone(row.w(), rollback_data@) =~= row0 ensures row.w() =~= row0 decreases rollback_data@.len() { let ghost row1 = row.w(); let ghost rb = rollback_data@; let Some((\1, \2)) = rollback_data.pop() else { break; }; match \2 {"),
  (r"\}\);(?=\s*\} else \{)", "} proof { cells_all(); assert(row.w() =~= undo1(row1, rb.last().0@, rb.last().1)); assert(rollback_data@ =~= rb.drop_last()); } }"), (r"break;", "{ proof { assert(row.w() =~= r0); assert(step(*mdl, r0, s[n]) is None || ret->Err_0 == QueryError::SysOutOfMemory); if step(*mdl, r0, s[n]) is None { applied_none(*mdl, row0, s, (n + 1) as nat, s.len()); } } break; }"), (r"if let Some\(list\) = row_data_wl\s*\.fields\(\)\s*\.st_get\((\w+)\)\s*\.and_then\(Datacell::try_list\)", r"if let Some(list) = row.list_mut(\1)"), (r"list\.write\(\)\.pop\(\);", "let ghost l0 = list@; list.pop(); proof { if l0.len() > 0 { assert(list@ =~= l0.drop_last()); } cells_all(); assert(row.w() =~= undo1(row1, rb.last().0@, rb.last().1)); }"),
  (r"row_data_wl\.set_txn_revised\(new_version\);", ""), (r"ds\.append_new_data_delta_with\((DataDeltaKind::\w+), row\.clone\(\), new_version, &g\)", r"vp_delta(log, \1)"), (r"compiler::unlikely\((\w+)\)", r"\1"), (r"_ => \{(?!\s*input_trace\(.fieldnot)(?=[^{}]*break;)", "_ => { vp_touch(field_data);"),
  (r"(rollback_data\.push\(\(lhs\.as_str\(\), Some\()mem::replace\((\w+), (\w+)\)\)\)\);", r"\1vp_swap(\2, \3)))); proof { let e = rollback_data@.last(); assert(e.0@ == x.lhs@); assert(e.1->Some_0.d() == r0[x.lhs@]); assert(undo1(row.w(), e.0@, e.1) =~= r0); }"),
  (r"rollback_data\.push\(\(lhs\.as_str\(\), None\)\);", "rollback_data.push((lhs.as_str(), None)); proof { let e = rollback_data@.last(); assert(e.0@ == x.lhs@); assert(row.w()[x.lhs@] is List); assert(row.w()[x.lhs@]->List_0.drop_last() =~= r0[x.lhs@]->List_0); assert(undo1(row.w(), e.0@, e.1) =~= r0); }")]
IDS = r"""
pub struct Row { pub k: PrimaryIndexKey, pub d: DcFieldIndex }
impl Row { pub fn new(k: PrimaryIndexKey, d: DcFieldIndex) -> (r: Row) ensures r.k == k, r.d == d { Row { k, d } } }
/// ASSUMED: the index keeps what is there (P21), keys are equal exactly when class and value are (P08)
#[verifier::external_body] fn vp_mt_insert(i: &mut Index, row: &Row) -> (r: bool) ensures r == !old(i)@.dom().contains(wide(row.k.v())), final(i)@ == (if r { old(i)@.insert(wide(row.k.v()), row.d@) } else { old(i)@ }) { unimplemented!() }
#[verifier::external_body] fn vp_mt_delete(i: &mut Index, k: Lit) -> (r: Option<Row>) ensures r is Some == old(i)@.dom().contains(wide(k.v())), final(i)@ == old(i)@.remove(wide(k.v())) || r is None && final(i)@ == old(i)@ { unimplemented!() }
/// the place of the primary key among the columns
pub open spec fn pk_at(s: Seq<(Name, Field)>, n: Name) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n }
proof fn pk_is(m: ModelData) requires m.wf() ensures ({ let i = pk_at(m.f(), m.pk@); 0 <= i < m.f().len() && m.f()[i].0 == m.pk@ && m.f()[i].1 == fld(m.f(), m.pk@) }) {}
"""
DMSUB = [(r"core::with_model_for_data_update\(global, \w+\.entity\(\), \|\w+\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}"), (r"let g = (?:sync::atm::)?cpin\(\);", ""), (r"let _idx_latch = [^;]*;", ""), (r"let (\w+) = \w+\.delta_state\(\);", ""), (r"let new_version = [^;]*;", ""),
  (r"\w+\.append_new_data_delta_with\(\s*(DataDeltaKind::\w+),[^;]*?\);", r"vp_delta(log, \1);")]
SELS = r"""
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ResponseType { Row, MultiRow }
pub enum Response { Empty, Null, Serialized { ty: ResponseType, size: usize, data: Vec<u8> }, Bool(bool) }
pub struct RowData { pub f: DcFieldIndex }
impl RowData { pub fn fields(&self) -> (r: &DcFieldIndex) ensures *r == self.f { &self.f } }
impl Row { pub fn d_key(&self) -> (r: &PrimaryIndexKey) ensures *r == self.k { &self.k } }
/// a row is brought up to date when it is read
#[verifier::external_body] fn vp_resolved<'a>(m: &ModelData, r: &'a Row) -> (d: &'a RowData) ensures d.f@ == resolved(*m, r.d@) { unimplemented!() }
#[verifier::external_body] fn vp_select<'a>(i: &'a Index, k: Lit) -> (r: Option<&'a Row>) ensures (match r { Some(x) => i@.dom().contains(wide(k.v())) && x.d@ == i@[wide(k.v())], None => !i@.dom().contains(wide(k.v())) }) { unimplemented!() }
/// a cell that borrows the value of a key. ASSUMED: P08
#[verifier::external_body] pub struct VirtualDatacell { x: u8 }
impl VirtualDatacell { pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body] pub fn new(l: Lit, tag: TagClass) -> (r: Self) requires class_of(l.v()) == Some(tag) ensures r.v() == l.v() { unimplemented!() }
    #[verifier::external_body] pub fn new_pk(k: &PrimaryIndexKey, tag: FullTag) -> (r: Self) ensures r.v() == keyv(tag, k.v()) { unimplemented!() }
    #[verifier::external_body] pub fn cell(&self) -> (r: &Datacell) ensures r.v() == self.v() { unimplemented!() } }
/// the value of a key with the width of the type of the column
pub uninterp spec fn keyv(t: FullTag, v: V) -> V;
pub axiom fn keyv_wide(t: FullTag, v: V, w: V) requires wide(v) == wide(w) ensures keyv(t, v) == keyv(t, w);
/// every entry of an index. TRUSTED: iteration hands out each entry exactly once (P21)
#[verifier::external_body] pub struct EntryIter<'g> { x: &'g u8 }
pub open spec fn each_once(s: Seq<(V, Cols)>, m: Map<V, Cols>) -> bool { (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1) && s.len() == m.dom().len() }
impl<'g> EntryIter<'g> { pub uninterp spec fn view(&self) -> Seq<(V, Cols)>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'g Row>) ensures (match r { Some(x) => old(self)@.len() > 0 && wide(x.k.v()) == old(self)@[0].0 && class_of(x.k.v()) == class_of(old(self)@[0].0) && x.d@ == old(self)@[0].1 && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }) { unimplemented!() } }
#[verifier::external_body] fn vp_entries<'g>(i: &Index) -> (r: EntryIter<'g>) ensures each_once(r@, i@), r@.len() <= usize::MAX { unimplemented!() }
pub struct RowIteratorAll<'g> { pub mdl: &'g ModelData, pub iter: EntryIter<'g>, pub limit: usize }
fn vp_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool) requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] call_requires(f, (&v@[i],)) ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] call_requires(f, (&v@[i],)), forall|j: int| 0 <= j < i ==> #[trigger] call_ensures(f, (&v@[j],), false) decreases v@.len() - i { let b = f(&v[i]); if b { assert(call_ensures(f, (&v@[i as int],), true)); return true; } i += 1; }
    false }
/// the columns asked for
pub open spec fn wanted(m: ModelData, wildcard: bool, fields: Seq<Ident>) -> Seq<Name> { if wildcard { names(m.f()) } else { idents(fields) } }
/// every name is a column (and no more names than columns)
pub open spec fn known_all(m: ModelData, ns: Seq<Name>) -> bool { ns.len() <= m.f().len() && forall|j: int| 0 <= j < ns.len() ==> in_f(m.f(), #[trigger] ns[j]) }
pub open spec fn idents(s: Seq<Ident>) -> Seq<Name> { s.map_values(|x: Ident| x@) }
/// the value in a row of the column with this name
pub open spec fn cell_of(m: ModelData, c: Cols, kv: V, n: Name) -> Option<V> { if c.dom().contains(n) { Some(c[n]) } else if n == m.pk@ { Some(kv) } else { None } }
/// the values of these columns, one after another, as they are sent
pub open spec fn row_out(m: ModelData, c: Cols, kv: V, ns: Seq<Name>, n: nat) -> Option<Seq<u8>> decreases n { if n == 0 || n > ns.len() { Some(Seq::empty()) } else { match (row_out(m, c, kv, ns, (n - 1) as nat), cell_of(m, c, kv, ns[n - 1])) { (Some(a), Some(v)) => Some(a + sent(v)), _ => None } } }
proof fn row_none(m: ModelData, c: Cols, kv: V, ns: Seq<Name>, k: nat, n: nat) requires k <= n <= ns.len(), row_out(m, c, kv, ns, k) is None ensures row_out(m, c, kv, ns, n) is None decreases n { if k < n { row_none(m, c, kv, ns, k, (n - 1) as nat); } }
/// a row that has every column of the model but the key (the key is kept apart)
pub open spec fn whole(m: ModelData, c: Cols) -> bool { !c.dom().contains(m.pk@) && forall|n: Name| #[trigger] in_f(m.f(), n) ==> n == m.pk@ || c.dom().contains(n) }
/// the first n rows
pub open spec fn rows_out(m: ModelData, es: Seq<(V, Cols)>, ns: Seq<Name>, n: nat) -> Seq<u8> decreases n { if n == 0 || n > es.len() { Seq::empty() } else { rows_out(m, es, ns, (n - 1) as nat) + row_out(m, resolved(m, es[n - 1].1), keyv(m.ptag, es[n - 1].0), ns, ns.len())->0 } }
/// the first rows (at most limit), the number of columns before them
pub open spec fn answered(m: ModelData, es: Seq<(V, Cols)>, i: Map<V, Cols>, ns: Seq<Name>, limit: u64, n: int, b0: Seq<u8>, b1: Seq<u8>) -> bool { n == (if limit < es.len() { limit as int } else { es.len() as int }) && b1 == b0 + numeral(ns.len() as int).push(10u8) + rows_out(m, es, ns, n as nat) }
proof fn assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + (b + c) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
proof fn wide2(v: V) ensures wide(wide(v)) == wide(v) {}
proof fn name_in(m: ModelData, i: int) requires 0 <= i < m.f().len() ensures in_f(m.f(), names(m.f())[i]) {}
"""
def grab(fn, rx):
    src, it = find(SL, fn, ("fn",))
    m = __import__("re").search(rx, src[it["span"][0]:it["span"][1]].decode(), __import__("re").S)
    if not m: raise Undecided("the closure of %s has another shape" % fn)
    return m
NUM = lambda t: __import__("re").sub(r"IntegerRepr::scoped\(((?:[^()]|\([^()]*\))*), \|repr\| buf\.extend\(repr\)\)", r"vp_num(buf, \1)", t)
def sinks():
    a = grab("select_resp", r"select_custom\(global, select, \|(\w+)\| \{(.*?)\}\)\?;")
    b = grab("select_custom", r"let mut read_field = \|(\w+), (\w+): &DcFieldIndex\| \{(.*?)\n            \};")
    c = grab("select_all_resp", r"\|buf, _, (\w+)\| \{(.*?)\n        \},\s*\|buf, (\w+), _\| (.*?),\n    \)\?;")
    R = __import__("re").sub
    return ("""fn cellfn(data: &mut Vec<u8>, i: &mut usize, %s: &Datacell) requires *old(i) < usize::MAX ensures final(data)@ =~= old(data)@ + sent(%s.v()), *final(i) == *old(i) + 1 {%s}
""" % (a[1], a[1], R(r"&mut data\b", "data", R(r"(?<![\w.])i (\+=|=)", r"*i \1", a[2])))
    + """fn read_field(mdl: &ModelData, pkdc: &VirtualDatacell, data: &mut Vec<u8>, i: &mut usize, %s: &str, %s: &DcFieldIndex) -> (r: QueryResult<()>) requires *old(i) < usize::MAX ensures (match cell_of(*mdl, %s@, pkdc.v(), %s@) { Some(v) => r is Ok && final(data)@ =~= old(data)@ + sent(v) && *final(i) == *old(i) + 1, None => r == Err::<(), QueryError>(QueryError::QExecUnknownField) && final(data)@ == old(data)@ && *final(i) == *old(i) }) {%s}
""" % (b[1], b[2], b[2], b[1], R(r"(\w+) == mdl\.p_key\(\)", r"vp_str_eq(\1, mdl.p_key())", R(r"&pkdc", "pkdc.cell()", R(r"cellfn\(", "cellfn(data, i, ", b[3]))))
    + """fn f_mdl(buf: &mut Vec<u8>, _m: &ModelData, %s: usize) ensures final(buf)@ == old(buf)@ + numeral(%s as int).push(10u8) {%s}
fn f(buf: &mut Vec<u8>, %s: &Datacell, _c: usize) ensures final(buf)@ == old(buf)@ + sent(%s.v()) { %s }
""" % (c[1], c[1], NUM(c[2]), c[3], c[3], c[4]))
SEL_SINKS = sinks()
def RD(fields, get):
    return "let mut vp_i: usize = 0; let ghost ns = %s; while vp_i < %s.len() invariant vp_i <= ns.len(), *i == vp_i, row_out(*mdl, r.f@, pkdc.v(), ns, vp_i as nat) is Some, data@ =~= b0 + row_out(*mdl, r.f@, pkdc.v(), ns, vp_i as nat)->0 decreases ns.len() - vp_i { let key = %s; let ghost i0 = vp_i as nat; vp_i += 1; proof { if cell_of(*mdl, r.f@, pkdc.v(), ns[i0 as int]) is None { row_none(*mdl, r.f@, pkdc.v(), ns, i0 + 1, ns.len()); } }" % (fields[0], fields[1], get)
SCSUB = [(r"global\s*\.state\(\)\s*\.namespace\(\)\s*\.with_model\(select\.entity\(\), \|mdl\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}"), (r"select\.clauses_mut\(\)", "clauses"), (r"let g = (?:sync::atm::)?cpin\(\);", ""), (r"mdl\.p_tag\(\)\.tag_unique\(\)\)", "mdl.p_tag().tag_unique())"), (r"target_key\.clone\(\)(?!, &g)", "target_key"),
  (r"let mut read_field = [\s\S]*?\n            \};", ""), (r"read_field\(key", "read_field(mdl, &pkdc, data, i, key"), (r"mdl\.primary_index\(\)\.select\(target_key\.clone\(\), &g\)", "vp_select(idx, target_key)"), (r"row\.resolve_schema_deltas_and_freeze\(mdl\.delta_state\(\)\)", "vp_resolved(mdl, row)"), (r"select\.is_wildcard\(\)", "wildcard"),
  (r"for key in mdl\.fields\(\)\.stseq_ord_key\(\) \{", lambda m: RD(("names(mdl.f())", "mdl.fields()"), "mdl.fields().key_at(vp_i)")), (r"for key in select\.into_fields\(\) \{", lambda m: RD(("idents(fields@)", "fields"), "&fields[vp_i]"))]
def RA(get):
    return "let mut vp_i: usize = 0; proof { assert(b1 + Seq::<u8>::empty() =~= b1); } while vp_i < %s.len() invariant vp_i <= ns.len(), row_out(*mdl, data.f@, vdc.v(), ns, vp_i as nat) is Some, out@ == b1 + row_out(*mdl, data.f@, vdc.v(), ns, vp_i as nat)->0 decreases ns.len() - vp_i { let key = %s; proof { assert(in_f(mdl.f(), ns[vp_i as int])); assoc(b1, row_out(*mdl, data.f@, vdc.v(), ns, vp_i as nat)->0, sent(cell_of(*mdl, data.f@, vdc.v(), ns[vp_i as int])->0)); } vp_i += 1;" % get
LOOPA = "let mut vp_it = RowIteratorAll::new(mdl, idx, \\1 as usize); let ghost es = vp_it.iter@; let ghost ns = %s; let ghost bh = out@; proof { known; assert(es.skip(0) =~= es); assert(bh + Seq::<u8>::empty() =~= bh); } loop invariant vp_it.mdl == mdl, i <= es.len(), i <= limit, vp_it.limit == limit - i, vp_it.iter@ == es.skip(i as int), out@ == bh + rows_out(*mdl, es, ns, i as nat) ensures i == (if limit < es.len() { limit as int } else { es.len() as int }) decreases es.len() - i { let Some((key, data)) = vp_it._next() else { break; }; let ghost b1 = out@; proof { assert(idx@.dom().contains(es[i as int].0)); keyv_wide(mdl.ptag, key.v(), es[i as int].0); wide2(key.v()); assert(es.skip(i as int).drop_first() =~= es.skip(i + 1)); assoc(bh, rows_out(*mdl, es, ns, i as nat), row_out(*mdl, data.f@, keyv(mdl.ptag, key.v()), ns, ns.len())->0); }"
SASUB = [(r"global\s*\.state\(\)\s*\.namespace\(\)\s*\.with_model\(select\.entity, \|mdl\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}"), (r"let g = (?:sync::atm::)?cpin\(\);", ""), (r"let mut i = 0;", "let mut i: usize = 0;"), (r"select\.wildcard", "wildcard"), (r"serialize_target(?=,)", "out"),
  (r"for \(key, data\) in RowIteratorAll::new\(&g, mdl, select\.limit as usize\) \{(?=(?:(?!for \(key)[\s\S])*?stseq_ord_key)", LOOPA.replace("\\1", "limit") .replace("known;", "assert forall|j: int| 0 <= j < ns.len() implies in_f(mdl.f(), #[trigger] ns[j]) by { name_in(*mdl, j); }") % "names(mdl.f())"), (r"for \(key, data\) in RowIteratorAll::new\(&g, mdl, select\.limit as usize\) \{(?!(?:(?!for \(key)[\s\S])*?stseq_ord_key)", LOOPA.replace("\\1", "limit") .replace("known;", "assert forall|j: int| 0 <= j < ns.len() implies in_f(mdl.f(), #[trigger] ns[j]) by { assert(ns[j] == fields@[j]@); }") % "idents(fields@)"),
  (r"for key in mdl\.fields\(\)\.stseq_ord_key\(\) \{", lambda m: RA(("mdl.fields()", "mdl.fields().key_at(vp_i)"))), (r"for key in select\.fields\.iter\(\) \{", lambda m: RA(("fields", "&fields[vp_i]"))),
  (r"key\.as_str\(\) == mdl\.p_key\(\)", "vp_str_eq(key.as_str(), mdl.p_key())"), (r"&\*vdc", "vdc.cell()"), (r"data\.fields\(\)\.(\w+)\(([^()]*|key\.as_str\(\))\)\.unwrap\(\)", r"vp_unwrap(data.fields().\1(\2))"),
  (r"select\s*\.fields\s*\.iter\(\)\s*\.any\((?=\|)", "vp_any(&fields, "), (r"select\.fields\.len\(\)", "fields.len()"), (r"return (Err\(\w+(?:::\w+)+\));", r"{ proof { let ns = idents(fields@); if ns.len() <= mdl.f().len() { let j = choose|j: int| 0 <= j < fields@.len() && !in_f(mdl.f(), #[trigger] fields@[j]@); assert(ns[j] == fields@[j]@); } } return \1; }")]
ITEMS = ITEMS + [Raw(DML), Raw(INS),
 Ty(QI, "InsertData", sub=[(r"HashMap<Ident<'a>, Datacell>", "IdentMap<'a>")]), Raw(INS2),
 Fn(QI, "InsertData::column_count", spec="ensures r == self.count()"),
 Fn(IN, "prepare_insert", sub=[(r"tuple\.into_iter\(\)", "VIter::of(tuple)"), (r"(\w+\.next\(\))\.unwrap_unchecked\(\)", r"vp_unwrap(\1)"), (r"let mut inserted = 0;", "let mut inserted: usize = 0;"), (r"primary_key\.unwrap_unchecked\(\)", "vp_unwrap(primary_key)"), (r"unsafe \{", "{")],
    attr="#[verifier::spinoff_prover] #[verifier::rlimit(10)]",
    spec="""requires model.wf() ensures (match r { Ok((k, d)) => insert.ok(model.f()) && made_cols(model.f(), insert, model.pk@, d@) && (forall|i: int| 0 <= i < model.f().len() && (#[trigger] model.f()[i]).0 == model.pk@ ==> k.v() == conf(model.f()[i].1, insert.val(model.f(), i))->0),
        Err(e) => !insert.ok(model.f()) && e == QueryError::QExecDmlValidationError })""",
    loops={0: """invariant s == model.f(), uniq_names(s), fw(s), ins0 is Ordered, ({ let t0 = ins0->Ordered_0@; let n = t0.len() - tuple@.len(); tuple@.len() <= t0.len() && tuple@ == t0.skip(n) && (okay ==> t0.len() == s.len() && fields@ == s.skip(n) && first_cols(s, ins0, n, prepared_data@)
            && forall|i: int| 0 <= i < n ==> conf((#[trigger] s[i]).1, t0[i].v()) is Some) && (!okay ==> !ins0.ok(s)) }) decreases tuple@.len()""",
           1: """invariant *fields == model.flds, s == model.f(), uniq_names(s), fw(s), ins0 is Map, ({ let m0 = ins0->Map_0@; map@.dom().subset_of(m0.dom()) && (forall|k: Name| map@.dom().contains(k) ==> map@[k] == m0[k]) && m0.dom().len() <= usize::MAX
            && inserted + map@.dom().len() <= m0.dom().len() && (okay ==> inserted + map@.dom().len() == m0.dom().len() && m0.dom().len() == s.len() && prepared_data@.dom() =~= m0.dom().difference(map@.dom()) && forall|k: Name| #[trigger] prepared_data@.dom().contains(k) ==> in_f(s, k) && conf(fld(s, k), m0[k]) is Some && prepared_data@[k] == conf(fld(s, k), m0[k])->0)
            && (!okay ==> !ins0.ok(s)) }) ensures okay ==> map@.dom().len() == 0 decreases map@.dom().len()"""},
    hints={"start": "let ghost s = model.f(); let ghost ins0 = insert; proof { fset_is(s); }",
       ("loop", 0, "start"): "let ghost n = ins0->Ordered_0@.len() - tuple@.len(); proof { assert(tuple@[0] == ins0->Ordered_0@[n]); assert(fields@[0] == s[n]); take_in(s, n); fw_at(s, n); }",
       ("loop", 0, "after"): "proof { conf_pk(*model); if okay { assert(s.take(s.len() as int) =~= s); } }",
       ("loop", 1, "start"): "let ghost mm = map@; let ghost m0 = ins0->Map_0@; proof { fw_all(s); if ins0.ok(s) { map_ok(s, ins0); } vstd::set_lib::lemma_len_subset(mm.dom(), m0.dom()); }",
       ("loop", 1, "after"): "proof { conf_pk(*model); if okay { map@.dom().lemma_len0_is_empty(); assert(map@.dom() =~= Set::empty()); assert(prepared_data@.dom() =~= ins0->Map_0@.dom()); assert forall|k: Name| #[trigger] ins0->Map_0@.dom().contains(k) implies in_f(s, k) && conf(fld(s, k), ins0->Map_0@[k]) is Some by { assert(prepared_data@.dom().contains(k)); } map_done(s, ins0); assert forall|i: int| 0 <= i < s.len() implies prepared_data@[(#[trigger] s[i]).0] == conf(s[i].1, ins0.val(s, i))->0 by { fld_at(s, i); assert(prepared_data@.dom().contains(s[i].0)); } } }"}),
 Raw(UPD), Ty(QM, "RelationalExpr"), Ty(QM, "WhereClause"), Const(QM, "RelationalExpr::OP_EQ", free=True, rename="REL_OP_EQ"),
 Fn(QM, "RelationalExpr::filter_hint_none", sub=[(r"Self::OP_EQ", "REL_OP_EQ")], spec="ensures r == (self.opc == 1)"), Fn(QM, "RelationalExpr::rhs", sub=[(r"self\.rhs\.clone\(\)", "self.rhs")], spec="ensures r == self.rhs"), Fn(QM, "WhereClause::clauses_mut", spec="ensures (*r) == old(self).c, *final(r) == final(self).c"),
 Fn(CM, "ModelData::resolve_where", sub=WHERE, spec="ensures (match r { Ok(k) => key_of(*self, old(where_clause).c@) == Some(wide(k.v())) && k == old(where_clause).c@[self.pk@].rhs, Err(_) => key_of(*self, old(where_clause).c@) is None })"),
 Ty(QU, "AssignmentExpression"), Raw(UPD2),
 Fn(UP, "update", key="update", attr="#[verifier::spinoff_prover] #[verifier::rlimit(15)] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", header=None, sub=UPSUB, closures_optional=True, loops_optional=True,
    sig_sub=[("global: &impl GlobalInstanceLike, mut update: UpdateStatement", "mdl: &ModelData, clauses: &mut WhereClause, expressions: Vec<AssignmentExpression>, idx: &mut Index, log: &mut Log"), ("QueryResult<()>", "QueryResult<QueryExecMeta>")],
    loops={0: """invariant mdl.wf(), s == expressions@, ({ let n = s.len() - assn_expressions@.len(); assn_expressions@.len() <= s.len() && assn_expressions@ == s.skip(n) && row_wf(*mdl, row.w()) && can_undo(row.w(), rollback_data@) && undone(row.w(), rollback_data@) =~= row0
        && (!rollback_now ==> applied(*mdl, row0, s, n as nat) == Some(row.w()) && ret is Ok) && (rollback_now ==> ret is Err && (ret->Err_0 != QueryError::SysOutOfMemory ==> applied(*mdl, row0, s, s.len()) is None)) }) decreases assn_expressions@.len()"""},
    spec="""requires mdl.wf(), forall|k: V| #[trigger] old(idx)@.dom().contains(k) ==> row_wf(*mdl, wcols(resolved(*mdl, old(idx)@[k]))) ensures ({ let k = key_of(*mdl, old(clauses).c@); let s = expressions@; match r {
        Ok(_) => k is Some && old(idx)@.dom().contains(k->0) && final(idx)@.dom() =~= old(idx)@.dom() && (forall|j: V| j != k->0 && old(idx)@.dom().contains(j) ==> final(idx)@[j] == old(idx)@[j]) && applied(*mdl, wcols(resolved(*mdl, old(idx)@[k->0])), s, s.len()) == Some(wcols(final(idx)@[k->0])) && final(log)@ == old(log)@.push(DataDeltaKind::Update),
        Err(e) => final(log)@ == old(log)@ && final(idx)@.dom() =~= old(idx)@.dom() && (forall|j: V| k != Some(j) && old(idx)@.dom().contains(j) ==> final(idx)@[j] == old(idx)@[j]) && (k is Some && old(idx)@.dom().contains(k->0) ==> wcols(final(idx)@[k->0]) =~= wcols(resolved(*mdl, old(idx)@[k->0]))
            && (e != QueryError::SysOutOfMemory ==> applied(*mdl, wcols(resolved(*mdl, old(idx)@[k->0])), s, s.len()) is None)) } })""",
    hints={"start": "let ghost s = expressions@; proof { cells_all(); }",
      ("loop", 0, "start"): "let ghost n = s.len() - assn_expressions@.len(); let ghost r0 = row.w(); let ghost lg = rollback_data@; let ghost x = s[n]; proof { assert(assn_expressions@[0] == x); x.rhs.is(); first_step(*mdl, row0, s, n as nat); fw_all(mdl.f()); if in_f(mdl.f(), x.lhs@) { conf_class(fld(mdl.f(), x.lhs@), x.rhs.v()); } opv_class(fld(mdl.f(), x.lhs@).ly()[0].tag, x.operator_fn, r0[x.lhs@], x.rhs.v()); if in_f(mdl.f(), x.lhs@) { fld_wf(*mdl, x.lhs@); } }",
      ("loop", 0, "end"): "proof { let e = rollback_data@.last(); assert(rollback_data@ =~= lg.push(e)); assert(undo1(row.w(), e.0@, e.1) =~= r0); undo_push(r0, row.w(), lg, e); assert(row.w() =~= step(*mdl, r0, x)->0); }"}),
 Raw(IDS), 
 Fn(IN, "insert", key="insert", sub=DMSUB + [(r"insert\.data\(\)", "values"), (r"Row::new\((\w+), (\w+), [^;]*\);", r"Row::new(\1, \2);"), (r"mdl\.primary_index\(\)\.__raw_index\(\)\.mt_insert\(row\.clone\(\), &g\)", "vp_mt_insert(idx, &row)")], closures_optional=True,
    sig_sub=[("global: &impl GlobalInstanceLike, insert: InsertStatement", "mdl: &ModelData, values: InsertData, idx: &mut Index, log: &mut Log"), ("QueryResult<()>", "QueryResult<QueryExecMeta>")],
    spec="""requires mdl.wf() ensures ({ let pk = conf(fld(mdl.f(), mdl.pk@), values.val(mdl.f(), pk_at(mdl.f(), mdl.pk@)))->0; match r {
        Ok(_) => values.ok(mdl.f()) && !old(idx)@.dom().contains(wide(pk)) && final(idx)@.dom() =~= old(idx)@.dom().insert(wide(pk)) && (forall|j: V| old(idx)@.dom().contains(j) ==> final(idx)@[j] == old(idx)@[j]) && made_cols(mdl.f(), values, mdl.pk@, final(idx)@[wide(pk)]) && final(log)@ == old(log)@.push(DataDeltaKind::Insert),
        Err(e) => final(idx)@ == old(idx)@ && final(log)@ == old(log)@ && (if values.ok(mdl.f()) { e == QueryError::QExecDmlDuplicate && old(idx)@.dom().contains(wide(pk)) } else { e == QueryError::QExecDmlValidationError }) } })""",
    hints={"start": "proof { pk_is(*mdl); }"}),
 Fn(DE, "delete", key="delete", sub=DMSUB + WHERE + [(r"model\s*\.primary_index\(\)\s*\.__raw_index\(\)\s*\.mt_delete_return_entry\(&(.*?), &g\)(?=\s*\{)", lambda m: "vp_mt_delete(idx, %s)" % m.group(1).replace("delete.clauses_mut()", "clauses"))], closures_optional=True,
    sig_sub=[("global: &impl GlobalInstanceLike, mut delete: DeleteStatement", "model: &ModelData, clauses: &mut WhereClause, idx: &mut Index, log: &mut Log"), ("QueryResult<()>", "QueryResult<QueryExecMeta>")],
    spec="""ensures ({ let k = key_of(*model, old(clauses).c@); match r { Ok(_) => k is Some && old(idx)@.dom().contains(k->0) && final(idx)@ == old(idx)@.remove(k->0) && final(log)@ == old(log)@.push(DataDeltaKind::Delete),
        Err(e) => final(idx)@ == old(idx)@ && final(log)@ == old(log)@ && (k is None || e == QueryError::QExecDmlRowNotFound && !old(idx)@.dom().contains(k->0)) } })"""),
 Raw(SELS), Raw(SEL_SINKS, fn="select_custom"),
 Fn(SL, "select_custom", key="select_custom", attr="#[verifier::spinoff_prover] #[verifier::rlimit(10)] #[verifier::loop_isolation(false)]", closures_optional=True, loops_optional=True,
    sig_sub=[("global: &impl GlobalInstanceLike,", "mdl: &ModelData, clauses: &mut WhereClause, wildcard: bool, fields: Vec<Ident>, idx: &Index, data: &mut Vec<u8>, i: &mut usize"), ("mut select: SelectStatement,", ""), ("mut cellfn: F,", ""), ("<F>", ""), (r"where", ""), (r"F: FnMut(&Datacell),", "")], sub=SCSUB,
    spec="""requires *old(i) == 0 ensures ({ let k = key_of(*mdl, old(clauses).c@); let ns = wanted(*mdl, wildcard, fields@); let kv = old(clauses).c@[mdl.pk@].rhs.v();
        let out = if k is Some && idx@.dom().contains(k->0) { row_out(*mdl, resolved(*mdl, idx@[k->0]), kv, ns, ns.len()) } else { None };
        match r { Ok(_) => out is Some && final(data)@ =~= old(data)@ + out->0 && *final(i) == ns.len(),
          Err(e) => out is None && (k is Some ==> e == (if idx@.dom().contains(k->0) { QueryError::QExecUnknownField } else { QueryError::QExecDmlRowNotFound })) } })""",
    hints={"start": "let ghost b0 = data@; let ghost c0 = clauses.c@;"}),
 Fn(SL, "select_resp", key="select_resp", closures_optional=True,
    sig_sub=[("global: &impl GlobalInstanceLike,", "mdl: &ModelData, clauses: &mut WhereClause, wildcard: bool, fields: Vec<Ident>, idx: &Index"), ("select: SelectStatement,", "")],
    sub=[(r"(?<=self::)select_custom\(global, select, \|item\| \{[\s\S]*?\}\)\?;", "select_custom(mdl, clauses, wildcard, fields, idx, &mut data, &mut i)?;"), (r"vec!\[\]", "Vec::new()")],
    spec="""ensures ({ let k = key_of(*mdl, old(clauses).c@); let ns = wanted(*mdl, wildcard, fields@); let kv = old(clauses).c@[mdl.pk@].rhs.v();
        let out = if k is Some && idx@.dom().contains(k->0) { row_out(*mdl, resolved(*mdl, idx@[k->0]), kv, ns, ns.len()) } else { None };
        match r { Ok(Response::Serialized { ty, size, data }) => out is Some && ty == ResponseType::Row && size == ns.len() && data@ =~= out->0, Ok(_) => false, Err(_) => out is None } })"""),
 Fn(SL, "RowIteratorAll::new", key="RowIteratorAll::new", sig_sub=[("g: &'g sync::atm::Guard, mdl: &'g ModelData", "mdl: &'g ModelData, index: &Index")], sub=[(r"let idx = [^;]*;", ""), (r"let latch = [^;]*;", ""), (r"_g: g,", ""), (r"_latch: latch,", ""), (r"idx\.__raw_index\(\)\.mt_iter_entry\(g\)", "vp_entries(index)"), (r"limit,", "limit,")],
    spec="ensures r.mdl == mdl, r.limit == limit, each_once(r.iter@, index@)"),
 Fn(SL, "RowIteratorAll::_next", key="RowIteratorAll::_next", sig_sub=[("parking_lot::RwLockReadGuard<'g, RowData>", "&'g RowData")], sub=[(r"row\.resolve_schema_deltas_and_freeze\(self\.mdl\.delta_state\(\)\)", "vp_resolved(self.mdl, row)"), (r"self\.iter\.next\(\)\.map\(\|row\| \{", "{ let Some(row) = self.iter.next() else { return None; }; Some("), (r"\}\)(?=\s*\}\s*$)", ")}")], closures_optional=True,
    spec="""ensures final(self).mdl == old(self).mdl, (match r { None => (old(self).limit == 0 || old(self).iter@.len() == 0) && final(self).iter@ == old(self).iter@, Some((k, d)) => old(self).limit > 0 && old(self).iter@.len() > 0 && final(self).limit == old(self).limit - 1 && final(self).iter@ == old(self).iter@.drop_first()
        && wide(k.v()) == old(self).iter@[0].0 && d.f@ == resolved(*old(self).mdl, old(self).iter@[0].1) && class_of(k.v()) == class_of(old(self).iter@[0].0) })"""),
 Fn(SL, "select_all", key="select_all", attr="#[verifier::spinoff_prover] #[verifier::rlimit(15)] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", loops_optional=True, header=None,
    sig_sub=[("global: &impl GlobalInstanceLike,", "mdl: &ModelData, wildcard: bool, fields: Vec<Ident>, limit: u64, idx: &Index, out: &mut Vec<u8>"), ("select: SelectAllStatement,", ""), ("serialize_target: &mut T,", ""), ("mut f_mdl: Fm,", ""), ("mut f: F,", ""), ("<Fm, F, T>", ""), ("where", ""), ("Fm: FnMut(&mut T, &ModelData, usize),", ""), ("F: FnMut(&mut T, &Datacell, usize),", "")], sub=SASUB,
    closures={1: "|$0: &Ident| -> (r: bool) ensures r == !in_f(mdl.f(), $0@)"}, closures_optional=True,
    spec="""requires mdl.wf(), forall|k: V| #[trigger] idx@.dom().contains(k) ==> whole(*mdl, resolved(*mdl, idx@[k])) ensures r is Ok ==> wildcard || known_all(*mdl, wanted(*mdl, wildcard, fields@)), r is Ok ==> exists|es: Seq<(V, Cols)>| #[trigger] each_once(es, idx@) && answered(*mdl, es, idx@, wanted(*mdl, wildcard, fields@), limit, r->Ok_0 as int, old(out)@, final(out)@),
        r is Err ==> !wildcard && !known_all(*mdl, wanted(*mdl, wildcard, fields@)) && r->Err_0 == QueryError::QExecUnknownField""",
    hints={("loop", 0, "after"): "proof { assert(answered(*mdl, es, idx@, wanted(*mdl, wildcard, fields@), limit, i as int, b0, out@)); }", ("loop", 2, "after"): "proof { assert(known_all(*mdl, wanted(*mdl, wildcard, fields@))); assert(answered(*mdl, es, idx@, wanted(*mdl, wildcard, fields@), limit, i as int, b0, out@)); }", "start": "hide(sent); hide(numeral); hide(ModelData::wf); hide(class_of); let ghost b0 = out@; proof { assert(forall|j: int| #![trigger fields@[j]] 0 <= j < fields@.len() ==> idents(fields@)[j] == fields@[j]@); }"}),
 Fn(SL, "select_all_resp", key="select_all_resp", closures_optional=True,
    sig_sub=[("global: &impl GlobalInstanceLike,", "mdl: &ModelData, wildcard: bool, fields: Vec<Ident>, limit: u64, idx: &Index"), ("select: SelectAllStatement,", "")], sub=[(r"(?<=self::)select_all\([\s\S]*?\n    \)\?;", "select_all(mdl, wildcard, fields, limit, idx, &mut ret_buf)?;"), (r"vec!\[\]", "Vec::new()")],
    spec="""requires mdl.wf(), forall|k: V| #[trigger] idx@.dom().contains(k) ==> whole(*mdl, resolved(*mdl, idx@[k])) ensures ({ let ns = wanted(*mdl, wildcard, fields@); match r { Ok(Response::Serialized { ty, size, data }) => (wildcard || known_all(*mdl, ns)) && ty == ResponseType::MultiRow && exists|es: Seq<(V, Cols)>| #[trigger] each_once(es, idx@) && answered(*mdl, es, idx@, ns, limit, size as int, Seq::empty(), data@),
        Ok(_) => false, Err(e) => !wildcard && !known_all(*mdl, ns) && e == QueryError::QExecUnknownField } })"""),
]
