"""P16: users, passwords and who may manage them (core/system_db.rs, core/dcl.rs)

Dropped by the extraction (all stated here, counted as R6 in the evidence):
 * the lock around the user map: `self.users.read()/write()` becomes `self.users`; the methods take `&mut self` (each of them holds the
   write lock from its first access to its end, so the sequential contract is the one other threads observe);
 * `global` becomes the journal driver itself: `driver_context(global, |drv| drv.commit_event(E), || {})` becomes `global.commit(E)`, whose
   contract is the one established for the journal under P12 (an error leaves the log as it was, success appends exactly E);
 * `g.state().namespace().sys_db()` becomes the parameter `sys_db`.
"""
SD = "server/src/engine/core/system_db.rs"
DC = "server/src/engine/core/dcl.rs"
QD = "server/src/engine/ql/dcl.rs"
NP = "server/src/engine/net/protocol/mod.rs"
SPEC = r'''
pub enum QueryError { SysPermissionDenied, SysAuthError, SysServerError, QExecDdlInvalidProperties, SysTransactionalError }
pub type QueryResult<T> = Result<T, QueryError>;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum TagClass { Bool, UnsignedInt, SignedInt, Float, Bin, Str, List }

// ---- strings. TRUSTED: comparison and copying of strings
#[verifier::external_body] fn vp_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn vp_to_box(a: &str) -> (r: Box<str>) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_into_box(a: String) -> (r: Box<str>) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_to_owned(a: &str) -> (r: String) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_boxed(a: Vec<u8>) -> (r: Box<[u8]>) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_is_empty(a: &[u8]) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;

// ---- the password hash. TRUSTED: the dependency rcrypt
/// the hash function accepts this password for this hash
pub uninterp spec fn accepts(hash: Seq<u8>, pw: Seq<u8>) -> bool;
pub struct RcryptError;
#[verifier::external_body] fn rcrypt__verify(pw: &[u8], hash: &[u8]) -> (r: Result<bool, RcryptError>) ensures (match r { Ok(b) => b == accepts(hash@, pw@), Err(_) => !accepts(hash@, pw@) }) { unimplemented!() }
#[verifier::external_body] fn rcrypt__hash(pw: &str, cost: u32) -> (r: Result<Vec<u8>, RcryptError>) ensures r matches Ok(h) ==> accepts(h@, utf8(pw@)) { unimplemented!() }

// ---- the map. TRUSTED: std HashMap behind a lock (the lock is dropped, see the head of this unit)
#[verifier::external_body] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(K)]
pub struct RWLIdx<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<V> RWLIdx<Box<str>, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Box<str>, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r is Some <==> old(self)@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), (match r { Some(v) => old(self)@.dom().contains(k@) && v == old(self)@[k@], None => !old(self)@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures (match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures (match r { Some(v) => old(self)@.dom().contains(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::empty()) { unimplemented!() }
}

// ---- the journal. ASSUMED: the contract established under P12
pub enum Ev { Create(Seq<char>, Seq<u8>), Alter(Seq<char>, Seq<u8>), Drop(Seq<char>) }
pub trait Txn { spec fn ev(&self) -> Ev; }
pub struct CreateUserTxn<'a> { u: &'a str, h: &'a [u8] }
impl<'a> CreateUserTxn<'a> { fn new(u: &'a str, h: &'a [u8]) -> (r: Self) ensures r.ev() == Ev::Create(u@, h@) { Self { u, h } } }
impl<'a> Txn for CreateUserTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Create(self.u@, self.h@) } }
pub struct AlterUserTxn<'a> { u: &'a str, h: &'a [u8] }
impl<'a> AlterUserTxn<'a> { fn new(u: &'a str, h: &'a [u8]) -> (r: Self) ensures r.ev() == Ev::Alter(u@, h@) { Self { u, h } } }
impl<'a> Txn for AlterUserTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Alter(self.u@, self.h@) } }
pub struct DropUserTxn<'a> { u: &'a str }
impl<'a> DropUserTxn<'a> { fn new(u: &'a str) -> (r: Self) ensures r.ev() == Ev::Drop(u@) { Self { u } } }
impl<'a> Txn for DropUserTxn<'a> { closed spec fn ev(&self) -> Ev { Ev::Drop(self.u@) } }
#[verifier::external_body] pub struct Journal { x: u8 }
impl Journal {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body] pub fn commit<T: Txn>(&mut self, t: T) -> (r: QueryResult<()>) ensures (match r { Ok(_) => final(self).log() == old(self).log().push(t.ev()), Err(_) => final(self).log() == old(self).log() }), r is Err ==> r->Err_0 is SysTransactionalError { unimplemented!() }
    #[verifier::external_body] pub fn status_okay(&self) -> (r: bool) { unimplemented!() }
}

// ---- the effect of an event on the users, as on restart
pub type Users = Map<Seq<char>, Seq<u8>>;
pub open spec fn play(m: Users, e: Ev) -> Users { match e { Ev::Create(u, h) => m.insert(u, h), Ev::Alter(u, h) => m.insert(u, h), Ev::Drop(u) => m.remove(u) } }
/// one event was logged and applied
pub open spec fn did(a: Users, b: Users, la: Seq<Ev>, lb: Seq<Ev>, e: Ev) -> bool { lb == la.push(e) && b =~= play(a, e) }
pub open spec fn nothing(a: Users, b: Users, la: Seq<Ev>, lb: Seq<Ev>) -> bool { a =~= b && la == lb }
pub open spec fn same_but(a: Users, b: Users, u: Seq<char>) -> bool { a.remove(u) =~= b.remove(u) }
pub proof fn root_is() ensures "root"@.len() == 4 { reveal_strlit("root"); }

// ---- literals and dictionaries. TRUSTED: std HashMap, the cell accessors (decided under P09)
#[verifier::external_body] pub struct Datacell { x: u8 }
impl Datacell {
    pub uninterp spec fn k(&self) -> TagClass;
    pub uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body] pub fn kind(&self) -> (r: TagClass) ensures r == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn vp_into_str(self) -> (r: String) requires self.k() == TagClass::Str ensures r@ == self.s() { unimplemented!() }
}
pub enum DictEntryGeneric { Data(Datacell), Map(DictGeneric) }
#[verifier::external_body] pub struct DictGeneric { x: u8 }
impl DictGeneric {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, DictEntryGeneric>;
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<DictEntryGeneric>) ensures final(self)@ == old(self)@.remove(k@), (match r { Some(v) => old(self)@.dom().contains(k@) && v == old(self)@[k@], None => !old(self)@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::empty()) { unimplemented!() }
}
#[verifier::external_body] pub struct Ident<'a> { x: &'a str }
impl<'a> Ident<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
/// the options of a user declaration are exactly one string named `password`
pub open spec fn decl_ok(m: Map<Seq<char>, DictEntryGeneric>) -> bool {
    let k = "password"@;
    m.dom().contains(k) && (m[k] matches DictEntryGeneric::Data(d) && d.k() == TagClass::Str) && m.remove(k) =~= Map::empty()
}
pub open spec fn decl_pw(m: Map<Seq<char>, DictEntryGeneric>) -> Seq<char> { m["password"@]->Data_0.s() }
'''
SPEC2 = r'''
impl SystemDatabase {
    pub open spec fn m(&self) -> Users { self.users@.map_values(|u: User| u.phash@) }
}
/// root has the same password and still exists
pub open spec fn root_kept(a: Users, b: Users) -> bool { a.dom().contains("root"@) ==> b.dom().contains("root"@) && a["root"@] == b["root"@] }
/// lemma: every event that user management can log keeps the root account (it is never the target)
proof fn root_kept_by(a: Users, b: Users, la: Seq<Ev>, lb: Seq<Ev>, e: Ev)
    requires did(a, b, la, lb, e), (match e { Ev::Create(u, h) => !a.dom().contains(u), Ev::Alter(u, _) => u != "root"@, Ev::Drop(u) => u != "root"@ })
    ensures root_kept(a, b)
{}
pub open spec fn cmd_ok(cmd: SysctlCommand, who: Seq<char>, root: bool, a: Users, b: Users, la: Seq<Ev>, lb: Seq<Ev>) -> bool {
    match cmd {
        SysctlCommand::CreateUser(d) => root && decl_ok(d.options@) && !a.dom().contains(d.username@) && exists|h: Seq<u8>| #[trigger] accepts(h, utf8(decl_pw(d.options@))) && did(a, b, la, lb, Ev::Create(d.username@, h)),
        SysctlCommand::AlterUser(d) => root && d.username@ != "root"@ && decl_ok(d.options@) && a.dom().contains(d.username@) && exists|h: Seq<u8>| #[trigger] accepts(h, utf8(decl_pw(d.options@))) && did(a, b, la, lb, Ev::Alter(d.username@, h)),
        SysctlCommand::DropUser(d) => root && d.username@ != who && a.dom().contains(d.username@) && did(a, b, la, lb, Ev::Drop(d.username@)),
        SysctlCommand::ReportStatus => nothing(a, b, la, lb),
    }
}
'''
# dropping the lock and the global
def literal(rel, ty, name):
    src, _ = find(rel, ty, ("struct", "fn"))
    m = __import__("re").search(r"const %s: &(?:'static )?str = (\"[^\"\\\\]*\");" % name, src.decode())
    if not m:
        raise Undecided("lost anchor: constant " + name)
    return m.group(1)
# Verus cannot evaluate string constants: their literals (as in /repo now) are put in their place
ROOT, PASSWORD = literal(SD, "SystemDatabase", "ROOT_ACCOUNT"), literal(DC, "exec", "KEY_PASSWORD")
LOCK = [(r"let mut users = self\.users\.write\(\);", ""), (r"(?<![\w.])users\.(contains_key|insert|remove|get_mut|get)\b", r"self.users.\1"), (r"self\s*\.users\s*\.(?:read|write)\(\)", "self.users")]
COMMIT = [(r"global\s*\.state\(\)\s*\.gns_driver\(\)\s*\.driver_context\(\s*global,\s*\|drv\|\s*drv\.commit_event\(", "global.commit(("), (r"\),\s*\|\| \{\},\s*\)", "))")]
STR = [(r"([\w.()]+) == (?:Self|SystemDatabase)::ROOT_ACCOUNT", r"vp_streq(\1, %s)" % ROOT), (r"([\w.()]+) == ([\w.]+username\(\)|[\w]*username)", r"vp_streq(\1, \2)"), (r"([\w.()]+) != ([\w.]+username\(\)|[\w]*username)", r"!vp_streq(\1, \2)"),
       (r"password_hash\.into_boxed_slice\(\)", "vp_boxed(password_hash)"), (r"(\w+)\.is_empty\(\)", r"vp_is_empty(\1)"), (r"rcrypt::(verify|hash)", r"rcrypt__\1"), (r"rcrypt::DEFAULT_COST", "12"), (r"(?<!== )(?:Self|SystemDatabase)::ROOT_ACCOUNT", ROOT)]
G = [("global: &impl GlobalInstanceLike", "global: &mut Journal")]
MUT = [("&self", "&mut self")]
DBS = "self.users@"
OLD = "old(self).m(), final(self).m(), old(global).log(), final(global).log()"
H = "proof { assert(%s); }"
def db(name, ok, err, **kw):
    return Fn(SD, "SystemDatabase::" + name, sig_sub=G + MUT, sub=LOCK + COMMIT + STR, closures_optional=True,
              spec="ensures (match r { Ok(_) => %s, Err(e) => nothing(%s) && %s })" % (ok, OLD, err), **kw)
DCL = [(r"global\s*\.state\(\)\s*\.namespace\(\)\s*\.sys_db\(\)\s*\.(\w+)\(\s*global,", r"sys_db.\1(global,"), (r"username\.into_boxed_str\(\)", "vp_into_box(username)"), (r"\bKEY_PASSWORD\b", PASSWORD), (r"user\.options_mut\(\)\.", "user.options."),
       (r"unsafe \{\s*d\.into_str\(\)\.unwrap_unchecked\(\)\s*\}", "d.vp_into_str()"), (r"([\w.]+\(\))\.to_owned\(\)", r"vp_to_owned(\1)"), (r"g\.health\(\)\.", "g."), (r"(create_user|drop_user|alter_user)\(&g,", r"\1(g, sys_db,")] + STR
GD = [("global: &impl GlobalInstanceLike", "global: &mut Journal, sys_db: &mut SystemDatabase")]
DOLD = "old(sys_db).m(), final(sys_db).m(), old(global).log(), final(global).log()"
SUBTY = [(r"DictEntryGeneric|DictGeneric", r"\g<0>")]
ITEMS = [
 Raw(SPEC),
 Ty(SD, "SystemDatabase"), Ty(SD, "User"), Ty(SD, "VerifyUser", attr="#[derive(Clone, Copy)]"), Ty(QD, "UserDecl"), Ty(QD, "UserDel"), Ty(QD, "SysctlCommand"),
 Ty(NP, "ClientLocalState", sub=[(r"handshake::CHandshakeStatic", "u8")]),
 Raw(SPEC2),
 Fn(SD, "User::new", spec="ensures r.phash@ == password_hash@"),
 Fn(SD, "User::hash", spec="ensures r@ == self.phash@", sub=[(r"&self\.phash", "vp_slice(&self.phash)")]),
 Raw("#[verifier::external_body] fn vp_slice(a: &Box<[u8]>) -> (r: &[u8]) ensures r@ == a@ { a }"),
 Fn(SD, "VerifyUser::is_root", spec="ensures r == (self is OkayRoot)"),
 Fn(SD, "SystemDatabase::empty", spec="ensures r.users@ == Map::<Seq<char>, User>::empty()"),
 Fn(SD, "SystemDatabase::verify_user", sub=LOCK + STR,
    spec="""ensures (match r {
        VerifyUser::NotFound => !self.m().dom().contains(username@),
        VerifyUser::IncorrectPassword => self.m().dom().contains(username@) && (password@.len() == 0 || !accepts(self.m()[username@], password@)),
        VerifyUser::Okay => self.m().dom().contains(username@) && username@ != "root"@ && password@.len() != 0 && accepts(self.m()[username@], password@),
        VerifyUser::OkayRoot => self.m().dom().contains(username@) && username@ == "root"@ && password@.len() != 0 && accepts(self.m()[username@], password@) })""",
    closures={0: """|$0: &User| -> (v: VerifyUser) ensures ({ let good = password@.len() != 0 && accepts($0.phash@, password@); match v { VerifyUser::NotFound => false, VerifyUser::IncorrectPassword => !good, VerifyUser::Okay => good && username@ != "root"@, VerifyUser::OkayRoot => good && username@ == "root"@ } })"""}),
 Fn(SD, "SystemDatabase::hash_password", sub=STR, spec="ensures (match r { Ok(h) => accepts(h@, utf8(password@)), Err(e) => e is QExecDdlInvalidProperties })", closures={0: "|_e: RcryptError| -> (q: QueryError) ensures q is QExecDdlInvalidProperties"}),
 db("create_user", "!old(self).m().dom().contains(username@) && exists|h: Seq<u8>| #[trigger] accepts(h, utf8(password@)) && did(%s, Ev::Create(username@, h))" % OLD, "(old(self).m().dom().contains(username@) ==> e is SysAuthError)"),
 db("alter_user", "old(self).m().dom().contains(username@) && exists|h: Seq<u8>| #[trigger] accepts(h, utf8(password@)) && did(%s, Ev::Alter(username@, h))" % OLD, "(!old(self).m().dom().contains(username@) ==> e is SysAuthError)"),
 db("drop_user", "old(self).m().dom().contains(username@) && did(%s, Ev::Drop(username@))" % OLD, "(!old(self).m().dom().contains(username@) ==> e is SysAuthError)"),
 Fn(QD, "SysctlCommand::needs_root", spec="ensures r == !(self is ReportStatus)"),
 Fn(QD, "UserDecl::username", spec="ensures r@ == self.username@"), Fn(QD, "UserDecl::options", spec="ensures r == self.options"), Fn(QD, "UserDel::username", spec="ensures r@ == self.username@"),
 Fn(NP, "ClientLocalState::is_root", spec="ensures r == self.root"), Fn(NP, "ClientLocalState::username", spec="ensures r@ == self.username@"),
 Fn(DC, "get_user_data", sub=DCL, spec="ensures (match r { Ok((u, p)) => decl_ok(user.options@) && u@ == user.username@ && p@ == decl_pw(user.options@), Err(e) => !decl_ok(user.options@) && e is QExecDdlInvalidProperties })"),
 Fn(DC, "alter_user", sub=DCL, sig_sub=GD, spec="ensures (match r { Ok(_) => cmd_ok(SysctlCommand::AlterUser(user), Seq::empty(), true, %s), Err(e) => nothing(%s) && (user.username@ == \"root\"@ ==> e is SysAuthError) })" % (DOLD, DOLD)),
 Fn(DC, "create_user", sub=DCL, sig_sub=GD, spec="ensures (match r { Ok(_) => cmd_ok(SysctlCommand::CreateUser(user), Seq::empty(), true, %s), Err(e) => nothing(%s) })" % (DOLD, DOLD)),
 Fn(DC, "drop_user", sub=DCL, sig_sub=GD, spec="ensures (match r { Ok(_) => cmd_ok(SysctlCommand::DropUser(user_del), cstate.username@, true, %s), Err(e) => nothing(%s) && (cstate.username@ == user_del.username@ ==> e is SysAuthError) })" % (DOLD, DOLD)),
 Fn(DC, "exec", sub=DCL, sig_sub=[("<G: GlobalInstanceLike>", ""), ("g: G", "g: &mut Journal, sys_db: &mut SystemDatabase")],
    spec="""ensures (match r { Ok(_) => cmd_ok(cmd, current_user.username@, current_user.root, %s), Err(e) => nothing(%s) && (!(cmd is ReportStatus) && !current_user.root ==> e is SysPermissionDenied) }),
      (current_user.root ==> current_user.username@ == "root"@) ==> root_kept(old(sys_db).m(), final(sys_db).m())""" .replace("%s", "old(sys_db).m(), final(sys_db).m(), old(g).log(), final(g).log()")),
]
