"""P19: the properties of a space as a tree, creating and altering them, and replaying an alteration (data/dict.rs, core/space.rs,
storage/common_encoding/r1/impls/gns/space.rs)

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * the lock around the map of spaces: `global.state().namespace().ddl_with_space_mut(&name, |space| { B })` becomes the body of that helper
   with `B` in place of the call (`let space = match spaces.get_mut(&name) { None => return Err(QExecObjectNotFound), ... }; B`);
 * `global` becomes the journal driver itself (see users.py); the namespace becomes the parameter `spaces`;
 * `for (a, b) in m` becomes `let mut it = m.into_iter(); while let Some((a, b)) = it.next()` (what the language defines it to be);
 * the dictionary (std HashMap) is an opaque type whose view is the tree it holds.
"""
DI = "server/src/engine/data/dict.rs"
SP = "server/src/engine/core/space.rs"
TX = "server/src/engine/txn/gns/space.rs"
AL = "server/src/engine/ql/ddl/alt.rs"
CR = "server/src/engine/ql/ddl/crt.rs"
GS = "server/src/engine/storage/common_encoding/r1/impls/gns/space.rs"
SPEC = r'''
broadcast use vstd::seq_lib::group_seq_properties;
pub enum QueryError { QExecDdlInvalidProperties, QExecObjectNotFound, QExecDdlObjectAlreadyExists, SysTransactionalError, SysServerError }
pub type QueryResult<T> = Result<T, QueryError>;
pub enum RestoreError { OnRestoreDataConflictMismatch, OnRestoreDataMissing, OnRestoreDataConflictAlreadyExists }
pub type RuntimeResult<T> = Result<T, RestoreError>;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum TagClass { Bool, UnsignedInt, SignedInt, Float, Bin, Str, List }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Uuid { u: u128 }
impl Uuid { #[verifier::external_body] pub fn new() -> (r: Uuid) { unimplemented!() } }

// ---- cells. TRUSTED: the cell accessors (decided under P09)
#[verifier::external_body] pub struct Datacell { x: u8 }
impl Datacell {
    pub uninterp spec fn init(&self) -> bool;
    pub uninterp spec fn k(&self) -> TagClass;
    #[verifier::external_body] pub fn is_init(&self) -> (r: bool) ensures r == self.init() { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == !self.init() { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: TagClass) ensures r == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn null() -> (r: Self) ensures !r.init() { unimplemented!() }
}

// ---- property trees: the oracle
pub enum Tree { Data(Datacell), Map(Map<Seq<char>, Tree>) }
pub type T = Map<Seq<char>, Tree>;
pub open spec fn sub_of(c: T, k: Seq<char>) -> T { if c.dom().contains(k) { match c[k] { Tree::Map(m) => m, _ => Map::empty() } } else { Map::empty() } }
pub open spec fn is_null_at(n: T, k: Seq<char>) -> bool { n[k] matches Tree::Data(d) && !d.init() }
/// what altering `c` by `n` has to give: a null removes the key, a value replaces it, a map is merged into the map that is there (or a new one)
pub open spec fn merged(c: T, n: T) -> T decreases n {
    Map::new(c.dom().union(n.dom()).filter(|k: Seq<char>| if n.dom().contains(k) { !is_null_at(n, k) } else { c.dom().contains(k) }),
      |k: Seq<char>| if n.dom().contains(k) { match n[k] { Tree::Data(d) => Tree::Data(d), Tree::Map(m) => Tree::Map(merged(sub_of(c, k), m)) } } else { c[k] })
}
/// may `c` be altered by `n`: no map becomes a value or the other way round, no value changes its kind; everything may be removed
pub open spec fn compat_at(c: T, n: T, k: Seq<char>) -> bool decreases n, 0nat when n.dom().contains(k) {
    match n[k] {
        Tree::Data(d) => d.init() && c.dom().contains(k) ==> (c[k] matches Tree::Data(e) && e.k() == d.k()),
        Tree::Map(m) => (c.dom().contains(k) ==> c[k] is Map) && compat(sub_of(c, k), m),
    }
}
pub open spec fn compat(c: T, n: T) -> bool decreases n, 1nat { forall|k: Seq<char>| #[trigger] n.dom().contains(k) ==> compat_at(c, n, k) }
/// a patch that can be applied without meeting a map where a value is
pub open spec fn fits_at(c: T, p: T, k: Seq<char>) -> bool decreases p, 0nat when p.dom().contains(k) { match p[k] { Tree::Data(_) => true, Tree::Map(m) => (c.dom().contains(k) ==> c[k] is Map) && fits(sub_of(c, k), m) } }
pub open spec fn fits(c: T, p: T) -> bool decreases p, 1nat { forall|k: Seq<char>| #[trigger] p.dom().contains(k) ==> fits_at(c, p, k) }
/// the patch `p` does at `k` to `c` what `n` does
pub open spec fn same_at(c: T, n: T, p: T, k: Seq<char>) -> bool {
    if p.dom().contains(k) {
        fits_at(c, p, k) && compat_at(c, p, k) && (match (n[k], p[k]) {
            (Tree::Data(a), Tree::Data(b)) => a.init() == b.init() && (a.init() ==> a == b),
            (Tree::Map(a), Tree::Map(b)) => merged(sub_of(c, k), a) == merged(sub_of(c, k), b),
            _ => false })
    } else { is_null_at(n, k) && !c.dom().contains(k) }
}
/// lemma: if the patch does the same everywhere, applying it gives the required tree
proof fn same_all(c: T, n: T, p: T)
    requires p.dom().subset_of(n.dom()), forall|k: Seq<char>| #[trigger] n.dom().contains(k) ==> same_at(c, n, p, k)
    ensures merged(c, p) == merged(c, n), fits(c, p), compat(c, p)
{
    assert forall|k: Seq<char>| p.dom().contains(k) implies #[trigger] fits_at(c, p, k) && compat_at(c, p, k) by { assert(n.dom().contains(k)); }
    assert forall|k: Seq<char>| merged(c, p).dom().contains(k) == merged(c, n).dom().contains(k) by { if n.dom().contains(k) { assert(same_at(c, n, p, k)); } }
    assert forall|k: Seq<char>| #[trigger] merged(c, p).dom().contains(k) implies merged(c, p)[k] == merged(c, n)[k] by { if n.dom().contains(k) { assert(same_at(c, n, p, k)); } }
    assert(merged(c, p) =~= merged(c, n));
}
/// lemma: what may be altered can be applied
proof fn compat_fits(c: T, n: T) requires compat(c, n) ensures fits(c, n) decreases n
{
    assert forall|k: Seq<char>| #[trigger] n.dom().contains(k) implies fits_at(c, n, k) by {
        assert(compat_at(c, n, k));
        if n[k] is Map { compat_fits(sub_of(c, k), n[k]->Map_0); }
    }
}
pub open spec fn tree_of(e: DictEntryGeneric) -> Tree { match e { DictEntryGeneric::Data(d) => Tree::Data(d), DictEntryGeneric::Map(m) => Tree::Map(m@) } }
/// the tree without its nulls
pub open spec fn flat(n: T) -> T { merged(Map::empty(), n) }

/// lemma: a map inside a tree is smaller than the tree
proof fn smaller(n: T, k: Seq<char>) requires n.dom().contains(k), n[k] is Map ensures decreases_to!(n => n[k]->Map_0)
{ assert(decreases_to!(n => n[k])); assert(decreases_to!(n[k] => n[k]->Map_0)); }

// ---- dictionaries. TRUSTED: std HashMap (the view is the tree it holds)
#[verifier::external_body] pub struct DictGeneric { x: u8 }
#[verifier::external_body] pub struct DictIter { x: u8 }
impl DictGeneric {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Tree>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&DictEntryGeneric>) ensures (match r { Some(v) => self@.dom().contains(k@) && tree_of(*v) == self@[k@], None => !self@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut DictEntryGeneric>)
        ensures (match r { Some(v) => old(self)@.dom().contains(k@) && tree_of(*v) == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, tree_of(*final(v))), None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Box<str>, v: DictEntryGeneric) -> (r: Option<DictEntryGeneric>) ensures final(self)@ == old(self)@.insert(k@, tree_of(v)) { unimplemented!() }
    #[verifier::external_body] pub fn st_upsert(&mut self, k: Box<str>, v: DictEntryGeneric) ensures final(self)@ == old(self)@.insert(k@, tree_of(v)) { unimplemented!() }
    #[verifier::external_body] pub fn st_insert(&mut self, k: Box<str>, v: DictEntryGeneric) -> (r: bool) ensures r == !old(self)@.dom().contains(k@), final(self)@ == (if r { old(self)@.insert(k@, tree_of(v)) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<DictEntryGeneric>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: DictIter) ensures r@ == self@ { unimplemented!() }
}
impl DictIter {
    /// what is still to come (in any order)
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Box<str>, DictEntryGeneric)>)
        ensures (match r { Some((k, v)) => old(self)@.dom().contains(k@) && tree_of(v) == old(self)@[k@] && final(self)@ == old(self)@.remove(k@), None => old(self)@ =~= Map::empty() && final(self)@ == old(self)@ }) { unimplemented!() }
}
#[verifier::external_body] fn vp_to_box(a: &str) -> (r: Box<str>) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_unreachable() requires false { unreachable!() }
#[verifier::external_body] pub struct StrSet { x: u8 }
impl StrSet { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ident<'a> { x: &'a str }
impl<'a> Ident<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
'''
SPEC2 = r'''
impl Space { pub open spec fn p(&self) -> T { self.props@ } }
#[verifier::external_body] pub struct Spaces { x: u8 }
impl Spaces {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Space>;
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Space>)
        ensures (match r { Some(v) => old(self)@.dom().contains(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn st_contains(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn st_insert(&mut self, k: Box<str>, v: Space) -> (r: bool) ensures r == !old(self)@.dom().contains(k@), final(self)@ == (if r { old(self)@.insert(k@, v) } else { old(self)@ }) { unimplemented!() }
}
// ---- the journal. ASSUMED: the contract established under P12
pub enum Ev { Create(Seq<char>, Uuid, T), Alter(Seq<char>, T), Drop(Seq<char>) }
pub trait Txn { spec fn ev(&self) -> Ev; }
#[verifier::external_body] pub struct Journal { x: u8 }
impl Journal {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    #[verifier::external_body] pub fn commit<X: Txn>(&mut self, t: X) -> (r: QueryResult<()>) ensures (match r { Ok(_) => final(self).log() == old(self).log().push(t.ev()), Err(_) => final(self).log() == old(self).log() }) { unimplemented!() }
    /// creating the directory of a space: no effect on the log
    #[verifier::external_body] pub fn initialize_space(&mut self, name: &str, uuid: Uuid) -> (r: QueryResult<()>) ensures final(self).log() == old(self).log() { unimplemented!() }
}
pub struct SpaceIDRes { pub uuid: Uuid, pub name: Box<str> }
#[derive(Clone, Copy)] pub struct SpaceIDRef<'a> { pub name: &'a str, pub space: &'a Space }
impl<'a> SpaceIDRef<'a> { pub fn new(name: &'a str, space: &'a Space) -> (r: Self) ensures r.name@ == name@ { Self { name, space } } }
/// the property tree after an alteration: `env` is always there
pub open spec fn with_env(m: T) -> T { if m.dom().contains("env"@) { m } else { m.insert("env"@, Tree::Map(Map::empty())) } }
pub open spec fn altered(c: T, n: T) -> T { with_env(merged(c, n)) }
/// what an alteration may set: nothing, or `env` alone, to a map or to null
pub open spec fn alter_shape(n: T) -> bool { n.dom() =~= Set::empty() || (n.dom() =~= set!["env"@] && (n["env"@] is Map || is_null_at(n, "env"@))) }
/// what a declaration may set: the same
pub open spec fn created(n: T) -> T { if n.dom() =~= Set::empty() || is_null_at(n, "env"@) { Map::empty().insert("env"@, Tree::Map(Map::empty())) } else { flat(n) } }
proof fn one_key(s: Set<Seq<char>>, k: Seq<char>) requires s.contains(k), s.len() == 1 ensures s =~= set![k]
{
    assert forall|x: Seq<char>| s.contains(x) implies x == k by { if x != k { let t = s.remove(k); assert(t.contains(x)); assert(t.len() == 0); t.lemma_len0_is_empty(); } }
}
proof fn keys(m: T, k: Seq<char>) ensures (m.dom().len() == 1 && m.dom().contains(k)) == (m.dom() =~= set![k]), m =~= Map::empty() ==> !m.dom().contains(k), (m.dom() =~= Set::empty()) == (m =~= Map::empty()), !m.dom().contains(k) ==> !(m.dom() =~= set![k]) {
    if m.dom().len() == 1 && m.dom().contains(k) { one_key(m.dom(), k); }
}
proof fn create_env(n: T) ensures ({ let m = Map::<Seq<char>, Tree>::empty().insert("env"@, Tree::Map(Map::empty())); flat(m) == m && (n =~= Map::empty() || n.dom() =~= set!["env"@] ==> n.insert("env"@, Tree::Map(Map::empty())) == m) })
{
    let m = Map::<Seq<char>, Tree>::empty().insert("env"@, Tree::Map(Map::empty()));
    assert(merged(Map::empty(), Map::empty()) =~= Map::empty());
    assert(flat(m) =~= m);
    if n =~= Map::empty() || n.dom() =~= set!["env"@] { assert(n.insert("env"@, Tree::Map(Map::empty())) =~= m); }
}
/// lemma: an alteration changes nothing outside what it names
proof fn merge_frame(c: T, n: T, k: Seq<char>) requires !n.dom().contains(k) ensures merged(c, n).dom().contains(k) == c.dom().contains(k), c.dom().contains(k) ==> merged(c, n)[k] == c[k] {}
pub open spec fn same_space(a: Space, b: Space) -> bool { a.p() == b.p() && a.uuid == b.uuid && a.models == b.models }
/// the same spaces, with the possible exception of one
pub open spec fn same_but(a: Spaces, b: Spaces, name: Seq<char>, but: bool) -> bool { b@.dom() =~= a@.dom() && forall|k: Seq<char>| #[trigger] a@.dom().contains(k) && !(but && k == name) ==> same_space(a@[k], b@[k]) }
pub open spec fn nothing(a: Spaces, b: Spaces, la: Journal, lb: Journal) -> bool { same_but(a, b, Seq::empty(), false) && la.log() == lb.log() }
pub open spec fn did_alter(a: Spaces, b: Spaces, la: Journal, lb: Journal, name: Seq<char>, n: T, patch: T) -> bool {
    lb.log() == la.log().push(Ev::Alter(name, patch)) && same_but(a, b, name, true)
      && b@[name].p() == altered(a@[name].p(), n) && b@[name].uuid == a@[name].uuid && b@[name].models == a@[name].models
      && compat(a@[name].p(), patch) && merged(a@[name].p(), patch) == merged(a@[name].p(), n)
}
/// lemma: replaying the logged patch on the properties the alteration was made on gives the properties it left
proof fn replay_alter(c: T, n: T, patch: T)
    requires compat(c, n), merged(c, patch) == merged(c, n), compat(c, patch)
    ensures compat(c, patch), altered(c, patch) == altered(c, n)
{}
'''

DROP_MODS = {"engine", "data", "dict", "txn", "gns", "space"}
def literal(rel, ty, name):
    src, _ = find(rel, ty, ("struct", "fn"))
    m = __import__("re").search(r"const %s: &(?:'static )?str = (\"[^\"\\\\]*\");" % name, src.decode())
    if not m:
        raise Undecided("lost anchor: constant " + name)
    return m.group(1)
ENV = literal(SP, "Space", "KEY_ENV")
EMPTY = [(r"into_dict!\(\)|Default::default\(\)", "DictGeneric::new()"), (r"unreachable!\(\)", "vp_unreachable()"), (r"(?:Self|Space)::KEY_ENV\.into\(\)", "vp_to_box(%s)" % ENV), (r"(?:Self|Space)::KEY_ENV(?!\.into)", ENV)]
COMMIT = [(r"global\s*\.state\(\)\s*\.gns_driver\(\)\s*\.driver_context\(\s*global,\s*\|drv\|\s*drv\.commit_event\(txn\),\s*\|\| (?:\{\}|\{[^;{}]*\}),?\s*\)", "global.commit(txn)"), (r"txn::gns::space::", "")]
FORIN = [(r"for \((\w+), (\w+)\) in (\w+)(?= \{)", r"let mut vp_it = \3.into_iter(); while let Some((\1, \2)) = vp_it.next()")]
TOBOX = [(r"space_name\.to_string\(\)\.into_boxed_str\(\)", "vp_to_box(space_name.as_str())")]
def hoist(m):
    # a match with guards whose arms do nothing or return: the value to return is computed first, then returned (Verus loses track of the other
    # mutable references at a `return` behind a guard)
    re = __import__("re")
    arms = re.sub(r"=> \{\}", "=> None,", m.group(2))
    arms = re.sub(r"=> return ((?:[^,(]|\((?:[^()]|\([^()]*\))*\))*),", r"=> Some(\1),", arms)
    return "let vp_m: Option<QueryResult<()>> = match %s {%s}; if let Some(vp_r) = vp_m { return vp_r; }" % (re.sub(r"(?:Self|Space)::KEY_ENV", ENV, m.group(1)), arms)
ALTER = [(r"match (updated_props\s*\.get\([^)]*\)) \{((?:[^{}]|\{\})*)\}", hoist), (r"global\s*\.state\(\)\s*\.namespace\(\)\s*\.ddl_with_space_mut\(&space_name, \|space\| \{", "{ let space = match spaces.get_mut(space_name.as_str()) { Some(s) => s, None => return Err(QueryError::QExecObjectNotFound) };"),
         (r"Ok\(\(\)\)\s*\}\)(?=\s*\}\s*$)", "Ok(()) }"), (r"SpaceIDRef::new\(&space_name,", "SpaceIDRef::new(space_name.as_str(),")]
CREATE = [(r"global\s*\.state\(\)\s*\.namespace\(\)\s*\.ddl_with_spaces_write\(\|spaces\| \{", "{"), (r"\}\)(?=\s*\}\s*$)", "}")]
REPLAY = [(r"let mut spaces = gns\.idx\(\)\.write\(\);", ""), (r"(?<!_)spaces\.st_insert\(space_name, space\.into\(\)\)", "gns.st_insert(space_name, space)"), (r"let mut gns = gns\.idx\(\)\.write\(\);", ""), (r"gns\.st_get_mut\(", "gns.get_mut("), (r"TransactionError::(\w+)\.into\(\)", r"RestoreError::\1")]
GNS = [("gns: &crate::engine::core::GNSData", "gns: &mut Spaces")]
SETS = [(r"Default::default\(\)", "StrSet::new()")]
SSIG = [("HashSet<Box<str>>", "StrSet")]
G = [("<G: GlobalInstanceLike>", ""), ("global: &G", "global: &mut Journal, spaces: &mut Spaces")]
ITEMS = [
 Raw(SPEC), Ty(DI, "DictEntryGeneric"), Ty(SP, "Space", sub=[(r"HashSet<Box<str>>", "StrSet")]), Ty(SP, "ProcedureCreate"), Raw(SPEC2), Ty(TX, "AlterSpaceTxn"), Raw("impl<'a> Txn for AlterSpaceTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Alter(self.space_id.name@, self.updated_props@) } }"), Fn(TX, "AlterSpaceTxn::new", spec="ensures r.ev() == Ev::Alter(space_id.name@, updated_props@)"), Ty(TX, "CreateSpaceTxn"), Raw("impl<'a> Txn for CreateSpaceTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Create(self.space_name@, self.space.uuid, self.space_meta@) } }"), Fn(TX, "CreateSpaceTxn::new", spec="ensures r.ev() == Ev::Create(space_name@, space.uuid, space_meta@)"),
 Ty(TX, "DropSpaceTxn"), Raw("impl<'a> Txn for DropSpaceTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Drop(self.space_id.name@) } }"), Fn(TX, "DropSpaceTxn::new", spec="ensures r.ev() == Ev::Drop(space_id.name@)"), Ty(AL, "AlterSpace"), Ty(CR, "CreateSpace"),
 Fn(DI, "rmerge_metadata_prepare_patch", attr="#[verifier::loop_isolation(false)]", sub=EMPTY,
    spec="""requires old(patch)@ == Map::<Seq<char>, Tree>::empty()
      ensures r == compat(current@, new@), r ==> merged(current@, final(patch)@) == merged(current@, new@) && fits(current@, final(patch)@) && compat(current@, final(patch)@)
      decreases new@""",
    loops={0: """invariant okay ==> patch@.dom().subset_of(n0.dom().difference(new@.dom())), new@.dom().subset_of(n0.dom()), forall|k: Seq<char>| #[trigger] new@.dom().contains(k) ==> new@[k] == n0[k],
       okay ==> forall|k: Seq<char>| #[trigger] n0.dom().contains(k) && !new@.dom().contains(k) ==> same_at(current@, n0, patch@, k) && compat_at(current@, n0, k),
       !okay ==> !compat(current@, n0)
      decreases new@.dom().len()"""},
    hints={"start": "let ghost n0 = new@;", ("call", "rmerge_metadata_prepare_patch", 0): "proof { smaller(n0, key@); }", ("call", "rmerge_metadata_prepare_patch", 1): "proof { smaller(n0, key@); }"}),
 Fn(DI, "rmerge_data_with_patch", attr="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", sub=EMPTY + FORIN,
    spec="requires fits(old(current)@, patch@) ensures final(current)@ == merged(old(current)@, patch@) decreases patch@",
    hints={"start": "let ghost c0 = current@; let ghost p0 = patch@;", ("call", "rmerge_data_with_patch", 0): "proof { smaller(p0, key@); assert(fits_at(c0, p0, key@)); }", ("call", "rmerge_data_with_patch", 1): "proof { smaller(p0, key@); assert(fits_at(c0, p0, key@)); }",
        ("loop", 0, "after"): "proof { assert(current@ =~= merged(c0, p0)); }"},
    loops={0: """invariant vp_it@.dom().subset_of(p0.dom()), forall|k: Seq<char>| #[trigger] vp_it@.dom().contains(k) ==> vp_it@[k] == p0[k], fits(c0, p0),
       forall|k: Seq<char>| #[trigger] current@.dom().contains(k) == (if p0.dom().contains(k) && !vp_it@.dom().contains(k) { !is_null_at(p0, k) } else { c0.dom().contains(k) }),
       forall|k: Seq<char>| #[trigger] current@.dom().contains(k) ==> current@[k] == (if p0.dom().contains(k) && !vp_it@.dom().contains(k) { merged(c0, p0)[k] } else { c0[k] })
      ensures vp_it@ =~= Map::empty()
      decreases vp_it@.dom().len()"""}),
 Fn(DI, "rprepare_metadata_patch", sub=EMPTY, spec="ensures (match r { Some(p) => compat(current@, new@) && merged(current@, p@) == merged(current@, new@) && fits(current@, p@) && compat(current@, p@), None => !compat(current@, new@) })"),
 Fn(DI, "rmerge_metadata", sub=EMPTY + [(r"current as &_", "current")], spec="ensures r == compat(old(current)@, new@), final(current)@ == (if r { merged(old(current)@, new@) } else { old(current)@ })"),
 Fn(DI, "rflatten_metadata", external="std HashMap::retain with a recursive closure", spec="ensures r@ == flat(new@)"),

 Fn(SP, "Space::props", spec="ensures r@ == self.p()"),
 Fn(SP, "Space::props_mut", spec="ensures *r == old(self).props, final(self).props == *final(r), final(self).uuid == old(self).uuid, final(self).models == old(self).models"),
 Fn(SP, "Space::get_uuid", spec="ensures r == self.uuid"),
 Fn(SP, "Space::new", sub=SETS, sig_sub=SSIG, spec="ensures r.props == props, r.uuid == uuid"),
 Fn(SP, "Space::new_auto", sub=SETS, sig_sub=SSIG, spec="ensures r.props == props"),
 Fn(SP, "Space::new_empty_auto", sub=SETS, spec="ensures r.props == props"),
 Fn(SP, "Space::process_create", hints={"start": 'keys(arg.props@, "env"@); create_env(arg.props@);'}, sub=EMPTY + TOBOX,
    spec="ensures (match r { Ok(p) => alter_shape(arg.props@) && p.space_name@ == arg.space_name@ && p.if_not_exists == arg.if_not_exists && p.space.p() == created(arg.props@), Err(e) => !alter_shape(arg.props@) && e is QExecDdlInvalidProperties })"),
 Fn(SP, "Space::transactional_exec_alter", hints={"start": 'keys(arg.updated_props@, "env"@);'}, closures_optional=True, sub=ALTER + EMPTY + COMMIT, sig_sub=G,
    spec="""ensures (match r {
        Ok(_) => alter_shape(arg.updated_props@) && old(spaces)@.dom().contains(arg.space_name@) && (
           if arg.updated_props@.dom() =~= Set::empty() { nothing(*old(spaces), *final(spaces), *old(global), *final(global)) }
           else { compat(old(spaces)@[arg.space_name@].p(), arg.updated_props@) && final(global).log().len() > 0 && did_alter(*old(spaces), *final(spaces), *old(global), *final(global), arg.space_name@, arg.updated_props@, final(global).log().last()->Alter_1) }),
        Err(_) => nothing(*old(spaces), *final(spaces), *old(global), *final(global)) })"""),

 Ty(GS, "AlterSpaceTxnRestorePL", sub=[(r"super::", "")]),
 Fn(GS, "<AlterSpaceTxn as GNSEvent>::update_global_state", free=True, sub=EMPTY + REPLAY, sig_sub=[("fn update_global_state", "fn replay_alter_space")] + [("Self::RestoreType", "AlterSpaceTxnRestorePL")] + GNS,
    spec="""ensures (match r {
        Ok(_) => old(gns)@.dom().contains(arg.space_id.name@) && ({ let o = old(gns)@[arg.space_id.name@]; let n = final(gns)@[arg.space_id.name@];
             compat(o.p(), arg.space_meta@) && n.p() == altered(o.p(), arg.space_meta@) && n.uuid == o.uuid && n.models == o.models && same_but(*old(gns), *final(gns), arg.space_id.name@, true) }),
        Err(_) => same_but(*old(gns), *final(gns), Seq::empty(), false) && !(old(gns)@.dom().contains(arg.space_id.name@) && compat(old(gns)@[arg.space_id.name@].p(), arg.space_meta@)) })"""),

 Fn(SP, "Space::transactional_exec_create", sub=CREATE + EMPTY + COMMIT, sig_sub=G, closures_optional=True,
    spec="""ensures (match r {
        Ok(Some(false)) => alter_shape(space.props@) && space.if_not_exists && old(spaces)@.dom().contains(space.space_name@) && nothing(*old(spaces), *final(spaces), *old(global), *final(global)),
        Ok(b) => b == (if space.if_not_exists { Some(true) } else { None::<bool> }) && alter_shape(space.props@) && !old(spaces)@.dom().contains(space.space_name@)
           && final(spaces)@.dom().contains(space.space_name@) && ({ let n = final(spaces)@[space.space_name@]; n.p() == created(space.props@) && final(spaces)@ == old(spaces)@.insert(space.space_name@, n) && final(global).log() == old(global).log().push(Ev::Create(space.space_name@, n.uuid, n.p())) }),
        Err(_) => nothing(*old(spaces), *final(spaces), *old(global), *final(global)) && (alter_shape(space.props@) && old(spaces)@.dom().contains(space.space_name@) ==> !space.if_not_exists) })"""),
 Ty(GS, "CreateSpaceTxnRestorePL"),
 Fn(GS, "<CreateSpaceTxn as GNSEvent>::update_global_state", free=True, sub=REPLAY, sig_sub=[("fn update_global_state", "fn replay_create_space")] + GNS,
    spec="""ensures (match r { Ok(_) => !old(gns)@.dom().contains(arg.space_name@) && final(gns)@ == old(gns)@.insert(arg.space_name@, arg.space), Err(_) => old(gns)@.dom().contains(arg.space_name@) && final(gns)@ == old(gns)@ })"""),
]
