// @attach server/src/engine/net/mod.rs
// @feature p16 p19 p25
// @native
//! A client of the real server loop: login, statements and responses go through the real connection code
//! (`protocol::query_loop`), executor and storage, over an in-memory stream.
use super::{protocol, Socket, BUF_READ_CAP, BUF_WRITE_CAP};
use crate::engine::{
    core::{GNSData, GlobalNS, system_db::SystemDatabase},
    data::uuid::Uuid,
    fractal::{load_and_enable_all, FractalGNSDriver, Global, GlobalInstanceLike, GlobalStateStart},
    storage::GNSDriver,
    txn::gns::sysctl::CreateUserTxn,
};
use crate::vp::*;
use bytes::BytesMut;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use tokio::io::{AsyncReadExt, AsyncWriteExt, BufWriter, DuplexStream};

impl Socket for DuplexStream {}

static NEXT: AtomicU64 = AtomicU64::new(0);
pub const ROOTPW: &str = "root password";

/// a running server: the real global state on a fresh (in memory) data directory
pub struct Srv { g: Option<Global>, boot: Vec<Box<dyn std::any::Any>>, log: String, rt: tokio::runtime::Runtime }
thread_local! { static HASH: Vec<u8> = rcrypt::hash(ROOTPW, 4).unwrap(); }

impl Srv {
    pub fn new() -> Self {
        let mut me = Self {
            g: None, boot: vec![], log: format!("vp_srv_{}.gns", NEXT.fetch_add(1, Ordering::Relaxed)),
            rt: tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).build().unwrap(),
        };
        let data = GNSData::empty();
        let mut drv = GNSDriver::create_gns_with_name(&me.log).unwrap();
        let h = HASH.with(|h| h.clone());
        drv.commit_event(CreateUserTxn::new(SystemDatabase::ROOT_ACCOUNT, &h)).unwrap();
        assert!(data.sys_db().__raw_create_user(SystemDatabase::ROOT_ACCOUNT.into(), h.into_boxed_slice()));
        me.start(GlobalNS::new(data, FractalGNSDriver::new(drv)));
        me
    }
    fn start(&mut self, gns: GlobalNS) {
        let GlobalStateStart { global, boot } = unsafe { load_and_enable_all(gns) };
        self.g = Some(global);
        self.boot.push(Box::new(boot));
    }
    /// a clean shutdown, then a start from what was stored
    pub fn restart(&mut self) {
        unsafe { self.g.take().unwrap().unload_all() };
        let data = GNSData::empty();
        let drv = GNSDriver::open_gns_with_name(&self.log, &data).unwrap_or_else(|e| panic!("C[restart]: what was stored cannot be loaded: {e}"));
        {
            let spaces = data.idx().read();
            for (id, model) in data.idx_models().read().iter() {
                let d = model.data();
                let sp: Uuid = spaces.get(id.space()).unwrap().get_uuid();
                let drv = crate::engine::storage::ModelDriver::open_model_driver(d, &crate::engine::storage::safe_interfaces::paths_v1::model_path(id.space(), sp, id.entity(), d.get_uuid())).unwrap_or_else(|e| panic!("C[restart]: the model {} cannot be loaded: {e}", id.entity()));
                model.driver().initialize_model_driver(drv);
            }
        }
        self.start(GlobalNS::new(data, FractalGNSDriver::new(drv)));
    }
    pub fn g(&self) -> &Global { self.g.as_ref().unwrap() }
    /// everything the server sends when a client sends these bytes (cut into pieces of the given size) and then hangs up
    pub fn talk(&self, bytes: &[u8], piece: usize) -> Vec<u8> {
        let g = self.g().clone();
        self.rt.block_on(async {
            let (cl, sv) = tokio::io::duplex(1 << 16);
            let (mut rd, mut wr) = tokio::io::split(cl);
            let server = async move {
                let mut con = BufWriter::with_capacity(BUF_WRITE_CAP, sv);
                let mut buf = BytesMut::with_capacity(BUF_READ_CAP);
                let r = protocol::query_loop(&mut con, &mut buf, &g).await;
                con.flush().await.ok();
                r.ok();
                drop(con);
            };
            let client = async move {
                for c in bytes.chunks(piece.max(1)) { if wr.write_all(c).await.is_err() { break } tokio::task::yield_now().await }
                wr.shutdown().await.ok();
                drop(wr);
            };
            let reader = async move { let mut o = vec![]; rd.read_to_end(&mut o).await.ok(); o };
            let (_, _, o) = tokio::join!(server, client, reader);
            o
        })
    }
    /// a conversation that waits for each response before the next statement (the protocol does not pipeline)
    pub fn session(&self, user: &[u8], pw: &[u8], stmts: &[Vec<u8>]) -> Result<Vec<R>, Vec<u8>> { self.session_at(user, pw, stmts, &Default::default()) }
    /// `at`: the number of the statement being answered
    pub fn session_at(&self, user: &[u8], pw: &[u8], stmts: &[Vec<u8>], at: &std::cell::RefCell<usize>) -> Result<Vec<R>, Vec<u8>> {
        let g = self.g().clone();
        let hello = hello(user, pw);
        self.rt.block_on(async {
            let (mut cl, sv) = tokio::io::duplex(1 << 20);
            let server = async move {
                let mut con = BufWriter::with_capacity(BUF_WRITE_CAP, sv);
                let mut buf = BytesMut::with_capacity(BUF_READ_CAP);
                let r = protocol::query_loop(&mut con, &mut buf, &g).await;
                con.flush().await.ok();
                r.ok();
                drop(con);
            };
            let client = async move {
                cl.write_all(&hello).await.expect("C[talk]: the server hung up during the handshake");
                let mut b = [0; 4];
                cl.read_exact(&mut b).await.unwrap_or_else(|e| panic!("C[talk]: no answer to the handshake: {e}"));
                if &b != b"H\0\0\0" { return Err(b.to_vec()) }
                let mut out = vec![];
                for (i, s) in stmts.iter().enumerate() {
                    *at.borrow_mut() = i;
                    cl.write_all(s).await.expect("C[talk]: the server hung up");
                    out.push(response(&mut cl).await);
                }
                cl.shutdown().await.ok();
                let mut rest = vec![];
                cl.read_to_end(&mut rest).await.ok();
                assert!(rest.is_empty(), "C[response]: more bytes than one response per statement: {rest:?}");
                Ok(out)
            };
            let (_, o) = tokio::join!(server, client);
            o
        })
    }
}
impl Drop for Srv { fn drop(&mut self) { if let Some(g) = self.g.take() { if !std::thread::panicking() { unsafe { g.unload_all() } } } } }

/// a response
#[derive(Debug, Clone, PartialEq)]
pub enum R { Null, Bool(bool), Num(u8, String), Bin(Vec<u8>), Str(String), List(Vec<R>), Err(u16), Row(Vec<R>), Empty, Rows(Vec<Vec<R>>) }
async fn byte(s: &mut DuplexStream) -> u8 { s.read_u8().await.unwrap_or_else(|e| panic!("C[response]: the server hung up within a response: {e}")) }
async fn line(s: &mut DuplexStream) -> String {
    let mut o = vec![];
    loop { match byte(s).await { b'\n' => break, b => o.push(b) } assert!(o.len() < 4096, "C[response]: endless number") }
    String::from_utf8(o).expect("C[response]: a number is not text")
}
async fn count(s: &mut DuplexStream) -> usize { let l = line(s).await; l.parse().unwrap_or_else(|_| panic!("C[response]: the length {l:?} is not a number")) }
fn response<'a>(s: &'a mut DuplexStream) -> std::pin::Pin<Box<dyn std::future::Future<Output = R> + 'a>> {
    Box::pin(async move {
        match byte(s).await {
            0 => R::Null,
            1 => match byte(s).await { 0 => R::Bool(false), 1 => R::Bool(true), b => panic!("C[response]: bool {b}") },
            t @ 2..=11 => R::Num(t, line(s).await),
            t @ (12 | 13) => {
                let n = count(s).await;
                let mut b = vec![0; n];
                s.read_exact(&mut b).await.unwrap_or_else(|e| panic!("C[response]: the server hung up within a response: {e}"));
                if t == 12 { R::Bin(b) } else { R::Str(String::from_utf8(b).expect("C[response]: a string is not text")) }
            }
            14 => { let n = count(s).await; let mut o = vec![]; for _ in 0..n { o.push(response(s).await) } R::List(o) }
            16 => { let a = byte(s).await; let b = byte(s).await; R::Err(u16::from_le_bytes([a, b])) }
            17 => { let n = count(s).await; let mut o = vec![]; for _ in 0..n { o.push(response(s).await) } R::Row(o) }
            18 => R::Empty,
            19 => {
                let (n, c) = (count(s).await, count(s).await);
                let mut o = vec![];
                for _ in 0..n { let mut r = vec![]; for _ in 0..c { r.push(response(s).await) } o.push(r) }
                R::Rows(o)
            }
            t => panic!("C[response]: unknown response type {t}"),
        }
    })
}
pub fn hello(u: &[u8], p: &[u8]) -> Vec<u8> {
    let mut o = b"H\0\0\0\0\0".to_vec();
    o.extend(format!("{}\n{}\n", u.len(), p.len()).bytes());
    o.extend(u); o.extend(p);
    o
}
pub fn stmt(q: &[u8], params: &[u8]) -> Vec<u8> {
    let mut b = format!("{}\n", q.len()).into_bytes();
    b.extend(q); b.extend(params);
    let mut o = format!("S{}\n", b.len()).into_bytes();
    o.extend(b);
    o
}
pub fn pstr(s: &str) -> Vec<u8> { let mut o = format!("\x06{}\n", s.len()).into_bytes(); o.extend(s.bytes()); o }

// ---------------------------------------------------------------- P16
fn pw(g: &mut Gen) -> String {
    match g.u8() % 12 {
        0 => String::new(),
        1 => "with\0nul".into(),
        2 => "é€😃".into(),
        3 => "a".repeat(71),
        4 => "a".repeat(71) + "b",
        5 => "\n\"'\\".into(),
        _ => (*g.pick(&["one", "two", "one ", "One", ROOTPW])).into(),
    }
}
fn user(g: &mut Gen) -> &'static str { *g.pick(&["root", "root", "ann", "bob", "Root", "ann2", "_"]) }

/// histories of user management and logins, over the wire, with restarts, against a map from users to passwords
#[cfg(feature = "vp_p16")]
pub fn users(g: &mut Gen) {
    let mut s = Srv::new();
    let mut m: BTreeMap<String, String> = BTreeMap::from([("root".into(), ROOTPW.into())]);
    let login = |g: &mut Gen, s: &Srv, m: &BTreeMap<String, String>| {
        let u: Vec<u8> = match g.u8() % 8 { 0 => vec![0xff, 0xfe], 1 => vec![], 2 => b"root\0".to_vec(), _ => user(g).into() };
        let p: Vec<u8> = match (g.u8() % 8, std::str::from_utf8(&u).ok().and_then(|u| m.get(u))) {
            (0..=2, Some(p)) => p.as_bytes().to_vec(),
            (3, Some(p)) => p.as_bytes()[..p.len().saturating_sub(1)].to_vec(),
            (4, Some(p)) => [p.as_bytes(), &[g.u8()]].concat(),
            (5, _) => vec![0xff, 0x80],
            _ => pw(g).into_bytes(),
        };
        let want = m.iter().any(|(k, v)| k.as_bytes() == u && v.as_bytes() == p);
        g.note(|| format!("login {u:?} {p:?}"));
        let empty = u.is_empty() || p.is_empty();
        let r = s.talk(&hello(&u, &p), 1 << 16);
        let ok = r == b"H\0\0\0";
        assert!(ok || (r.len() == 4 && r[..3] == *b"H\0\x01"), "C[login]: {u:?} with {p:?}: the server answers {r:?}");
        assert!(ok == want, "C[login]: {u:?} with {p:?} ({} bytes): {}, but the users are {m:?}", p.len(), if ok { "let in" } else { "refused" });
        let _ = empty;
        if ok { g.nontrivial() }
        ok
    };
    let mut hashed = 0;
    for _ in 0..g.range(1, 12) {
        if g.u8() % 3 == 0 { login(g, &s, &m); continue }
        if g.u8() % 10 == 0 { g.note(|| "restart".into()); s.restart(); continue }
        // a statement by one of the existing users
        let who = if g.u8() % 3 != 0 { "root".to_string() } else { let k: Vec<_> = m.keys().cloned().collect(); g.pick(&k).clone() };
        let target = if g.u8() % 8 == 0 { who.clone() } else { user(g).to_string() };
        let p = pw(g);
        let root = who == "root";
        let bad = g.u8() % 8;
        // root's statements that hash are slow: few of them
        let verb = match g.u8() % 6 { 0 | 1 => "create", 2 => "alter", 3 | 4 => "drop", _ => "report" };
        let opts: (String, Vec<u8>) = match bad {
            0 => ("{ }".into(), vec![]),
            1 => ("{ password: 5 }".into(), vec![]),
            2 => ("{ password: ?, extra: true }".into(), pstr(&p)),
            3 => ("{ pass: ? }".into(), pstr(&p)),
            _ => ("{ password: ? }".into(), pstr(&p)),
        };
        let good = bad > 3 && !p.is_empty() && !p.contains('\0');
        let (text, params, want) = match verb {
            "create" => (format!("sysctl create user {target} with {}", opts.0), opts.1.clone(), root && !m.contains_key(&target) && good),
            "alter" => (format!("sysctl alter user {target} with {}", opts.0), opts.1.clone(), root && target != "root" && m.contains_key(&target) && good),
            "drop" => (format!("sysctl drop user {target}"), vec![], root && target != who && m.contains_key(&target)),
            _ => ("sysctl report status".into(), vec![], true),
        };
        if root && good && (verb == "create" || verb == "alter") { hashed += 1; if hashed > 3 { continue } }
        g.note(|| format!("{who}: {text} {p:?}"));
        let before: Vec<(String, Vec<u8>)> = snapshot(&s);
        let r = s.session(who.as_bytes(), m[&who].as_bytes(), &[stmt(text.as_bytes(), &params)]).unwrap_or_else(|e| panic!("C[login]: {who} with the right password is refused: {e:?}"));
        let after = snapshot(&s);
        let ok = r[0] == R::Empty;
        assert!(ok || matches!(r[0], R::Err(_)), "C[sysctl]: {text}: {r:?}");
        assert!(ok == want, "C[sysctl]: {who}: {text} (password {p:?}): {}, users {m:?}", if ok { "accepted" } else { "refused" });
        if !ok || verb == "report" { assert!(before == after, "C[sysctl]: {who}: {text}: answered {r:?}, but changed the users") }
        if ok {
            match verb {
                "create" | "alter" => { m.insert(target.clone(), p); }
                "drop" => { m.remove(&target); }
                _ => {}
            }
            let names: Vec<&String> = after.iter().map(|(n, _)| n).collect();
            assert!(names == m.keys().collect::<Vec<_>>(), "C[sysctl]: after {text} the users are {names:?}, not {m:?}");
            let others = |v: &[(String, Vec<u8>)]| v.iter().filter(|(n, _)| *n != target).cloned().collect::<Vec<_>>();
            assert!(others(&before) == others(&after), "C[sysctl]: {text} changed another user");
            g.nontrivial();
        } else if !root && verb != "report" && bad > 1 {
            assert!(r[0] == R::Err(5), "C[sysctl]: {who}: {text}: {r:?}, expected the permission error");
        }
    }
    // everybody can still log in with exactly the current password, also after a restart
    if g.bool() { s.restart() }
    for (u, p) in &m { assert!(s.talk(&hello(u.as_bytes(), p.as_bytes()), 3) == b"H\0\0\0", "C[login]: {u:?} with the right password {p:?} is refused at the end; users {m:?}") }
    for u in ["ann", "bob", "Root"] { if !m.contains_key(u) { assert!(s.talk(&hello(u.as_bytes(), b"one"), 100) != b"H\0\0\0", "C[login]: {u:?} does not exist, but is let in") } }
}
#[cfg(feature = "vp_p16")]
fn snapshot(s: &Srv) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = s.g().state().namespace().sys_db().users().read().iter().map(|(k, v)| (k.to_string(), v.hash().to_vec())).collect();
    v.sort();
    v
}
/// logins against many users whose passwords are cheap to hash
#[cfg(feature = "vp_p16")]
pub fn logins(g: &mut Gen) {
    let s = SystemDatabase::empty();
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for _ in 0..g.range(1, 4) {
        let u = user(g).to_string();
        let p: Vec<u8> = if g.bool() { pw(g).into_bytes() } else { g.bytes(12) };
        let Ok(h) = rcrypt::hash(&p, 4) else { continue };
        let made = s.__raw_create_user(u.clone().into(), h.clone().into());
        assert!(made == !m.contains_key(&u), "C[users]: creating {u:?}: {made}");
        if made || s.__raw_alter_user(&u, h.into()) { m.insert(u, p); }
        if g.u8() % 6 == 0 { let u = user(g); assert!(s.__raw_delete_user(u) == m.remove(u).is_some(), "C[users]: dropping {u:?}") }
    }
    for _ in 0..4 {
        let u = user(g).to_string();
        let p: Vec<u8> = match (g.u8() % 8, m.get(&u)) {
            (0 | 1, Some(p)) => p.clone(),
            (2, Some(p)) => p[..p.len().saturating_sub(1)].to_vec(),
            (3, Some(p)) => { let mut p = p.clone(); p.push(g.u8()); p }
            (4, Some(p)) if !p.is_empty() => { let mut p = p.clone(); let i = g.range(0, p.len() - 1); p[i] ^= 1 << (g.u8() % 8); p }
            (5, _) => m.values().next().cloned().unwrap_or_default(),
            (6, _) => g.bytes(12),
            _ => pw(g).into_bytes(),
        };
        use crate::engine::core::system_db::VerifyUser as VU;
        let want = match m.get(&u) { None => VU::NotFound, Some(q) if *q == p => if u == "root" { VU::OkayRoot } else { VU::Okay }, Some(_) => VU::IncorrectPassword };
        let got = s.verify_user(&u, &p);
        g.note(|| format!("{u} {p:?}: {want:?}"));
        let long = got == if u == "root" { VU::OkayRoot } else { VU::Okay } && m.get(&u).map_or(false, |q| p.len() > 71 && q.len() > 71 && p[..72] == q[..72]);
        assert!(got == want, "C[verify{}]: {u:?} with {p:?}: {got:?}, expected {want:?}; users {m:?}", if long { ": same first 72 bytes" } else { "" });
        if want != VU::NotFound { g.nontrivial() }
    }
}
#[cfg(feature = "vp_p16")]
vp_native!(n_users, users, 160, 5);
#[cfg(feature = "vp_p16")]
vp_native!(n_logins, logins, 120, 20);

// ---------------------------------------------------------------- P25
#[cfg(feature = "vp_p25")]
const STMTS: &[&str] = &[
    "create space t with { env: { a: 1, b: true }, x: 'y' }", "create space if not exists s", "alter space s with { env: { a: null } }", "drop space t", "drop space allow not empty t", "drop space if exists t",
    "create model s.n(a: string, b: uint8, c: list { type: string })", "create model if not exists s.n(primary b: sint64, null c: binary, d: list { type: list { type: bool } }) with { }",
    "alter model s.n add e { type: string, nullable: true }", "alter model s.n update b { type: uint64 }", "alter model s.n remove (b, c)", "drop model s.n", "drop model allow not empty s.n", "drop model if exists s.n",
    "insert into s.m('k', 1, null, [], true)", "insert into s.m(?, ?, ?, ?, ?)", "insert into s.m { k: 'z', n: 5, f: 1.5, l: ['a', 'b'], b: false }", "insert into m('q', 1, 1.0, ['x'], false)",
    "select * from s.m where k = 'k'", "select k, n from s.m where k = ?", "select all * from s.m limit 10", "select all k, l from s.m limit ?", "select * from m where k = 'k'",
    "update s.m set n += 1 where k = 'k'", "update s.m set l += 'x', b = true, n = ? where k = 'k'", "update s.m set f *= 2.0 where k = ?", "delete from s.m where k = 'k'", "delete from s.m where k = ?",
    "use s", "use null", "use $current", "inspect global", "inspect space s", "inspect model s.m", "inspect space", "describe model s.m", "exists s.m", "truncate model s.m", "sysctl report status", "sysctl create user u with { password: '' }",
    "sysctl drop user u", "sysctl alter user root with { password: 'x' }", "",
];
#[cfg(feature = "vp_p25")]
const WORDS: &[&str] = &["(", ")", "{", "}", "[", "]", ",", ".", ":", ";", "?", "=", "+=", "-=", "*", "/=", "@", "$", "#", "!", "\\", "'", "\"", "`", "-", "-1", "0", "1", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1.5", "1e400", "null", "true", "type", "with", "where", "allow", "not", "empty", "exists", "if", "model", "space", "user", "primary", "list", "string", "uint8", "s", "m", "k", "n", "l", "limit", "all", "from", "into", "set", "@uuidstr", "@timesec", "'a'", "'\\'", "b'x'", "\0", "é", "\u{ff}", "current", "$current", "_", "a.b.c", "..", "()", "[]", "{}", "[[]]", "{{}}", "{a:{}}"];
/// words of a statement as the generator sees them
#[cfg(feature = "vp_p25")]
fn words(s: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut cur = String::new();
    let mut q = false;
    for c in s.chars() {
        if c == '.' && !cur.is_empty() && cur.chars().all(|c| c.is_ascii_digit()) { cur.push(c); continue }
        if c == '\'' { q = !q; cur.push(c); continue }
        if q || c.is_alphanumeric() || c == '_' { cur.push(c); continue }
        if !cur.is_empty() { o.push(std::mem::take(&mut cur)) }
        if c != ' ' { o.push(c.to_string()) }
    }
    if !cur.is_empty() { o.push(cur) }
    o
}
/// string and number literals travel as parameters
#[cfg(feature = "vp_p25")]
fn literal(x: &str) -> Option<Vec<u8>> {
    if x.len() > 1 && x.starts_with('\'') && x.ends_with('\'') { return Some(pstr(&x[1..x.len() - 1])) }
    if x.parse::<u64>().is_ok() { return Some(format!("\x02{x}\n").into_bytes()) }
    if x.contains('.') && x.parse::<f64>().is_ok() { return Some(format!("\x04{x}\n").into_bytes()) }
    None
}
#[cfg(feature = "vp_p25")]
fn broken(g: &mut Gen) -> (Vec<u8>, Vec<u8>) {
    let mut w = words(g.pick(STMTS));
    for _ in 0..g.range(0, 4) {
        if w.is_empty() { w.push((*g.pick(WORDS)).into()); continue }
        let i = g.range(0, w.len() - 1);
        match g.u8() % 10 {
            0 | 1 => { w.remove(i); }
            2 => w.truncate(i),
            3 | 4 => w[i] = (*g.pick(WORDS)).into(),
            5 | 6 => w.insert(i, (*g.pick(WORDS)).into()),
            7 => { let j = g.range(0, w.len() - 1); w.swap(i, j) }
            8 => { let j = g.range(0, w.len() - 1); let (i, j) = (i.min(j), i.max(j)); let part = w[i..=j].to_vec(); w.splice(j..j, part); }
            _ => { let mut o = words(g.pick(STMTS)); o.truncate(g.u8() as usize % 8); let t = w.split_off(i); o.extend(t); w = o }
        }
    }
    // string and float literals are only accepted as parameters
    let mut p = vec![];
    for x in w.iter_mut() {
        if x == "?" {
            match g.u8() % 10 {
                0 => p.extend(b"\x00"), 1 => p.extend(b"\x01\x01"), 2 => p.extend(b"\x0218446744073709551615\n"), 3 => p.extend(b"\x03-5\n"), 4 => p.extend(b"\x042.5\n"), 5 | 6 => p.extend(pstr("k")),
                7 => p.extend(b"\x053\nabc"), 8 => p.extend(g.bytes(6)), _ => p.extend(b"\x021\n"),
            }
        } else if let Some(b) = literal(x) { p.extend(b); *x = "?".into() }
    }
    if g.u8() % 16 == 0 { p.extend(g.bytes(5)) }
    if g.u8() % 32 == 0 { let n = p.len() / 2; p.truncate(n) }
    let sep = if g.u8() % 8 == 0 { "  \n\t" } else { " " };
    let mut q = w.join(sep).into_bytes();
    match g.u8() % 16 { 0 if !q.is_empty() => { let i = g.range(0, q.len() - 1); q[i] = g.u8() } 1 => q.push(g.u8()), 2 if !q.is_empty() => { let i = g.range(0, q.len() - 1); q.truncate(i) } _ => {} }
    (q, p)
}
#[cfg(feature = "vp_p25")]
fn text(q: &str) -> Vec<u8> {
    let mut p = vec![];
    let mut w = words(q);
    for x in w.iter_mut() { if let Some(b) = literal(x) { p.extend(b); *x = "?".into() } }
    let o = w.join(" ");
    stmt(o.as_bytes(), &p)
}
/// whatever is sent, every statement gets exactly one well formed response, the connection stays usable, and nothing is
/// changed by a refused statement
#[cfg(feature = "vp_p25")]
pub fn any_statement(g: &mut Gen) {
    let s = Srv::new();
    let mut all: Vec<Vec<u8>> = ["create space s", "create model s.m(k: string, n: uint64, null f: float64, l: list { type: string }, null b: bool)", "insert into s.m('k', 1, null, ['a'], true)"].iter().map(|q| text(q)).collect();
    let setup = all.len();
    if g.u8() % 4 == 0 { all.push(stmt(b"use s", &[])) }
    let n = all.len();
    let mut shown = vec![];
    for _ in 0..g.range(1, 6) { let (q, p) = broken(g); shown.push(format!("{:?} {:?}", String::from_utf8_lossy(&q), p)); all.push(stmt(&q, &p)) }
    all.push(stmt(b"use null", &[]));
    all.push(stmt(b"inspect global", &[]));
    g.note(|| shown.join(" ;; "));
    let r = s.session(b"root", ROOTPW.as_bytes(), &all).unwrap();
    for (i, x) in r[..setup].iter().enumerate() { assert!(*x == R::Empty, "C[setup]: statement {i}: {x:?}") }
    assert!(matches!(r[r.len() - 1], R::Str(_)) && r[r.len() - 2] == R::Empty, "C[alive]: after {shown:?} the connection answers {:?}", &r[r.len() - 2..]);
    if r[n..r.len() - 2].iter().any(|x| matches!(x, R::Err(_))) { g.nontrivial() }
    // a second client is not disturbed either
    let r2 = s.session(b"root", ROOTPW.as_bytes(), &[stmt(b"sysctl report status", &[])]).unwrap();
    assert!(r2[0] == R::Empty, "C[alive]: after {shown:?} another client gets {r2:?}");
}
#[cfg(feature = "vp_p25")]
const EXTREMES: &[&[u8]] = &[b"\x00", b"\x01\x00", b"\x01\x01", b"\x020\n", b"\x02255\n", b"\x024294967296\n", b"\x021099511627776\n", b"\x024611686018427387904\n", b"\x029223372036854775807\n", b"\x029223372036854775808\n", b"\x0218446744073709551614\n", b"\x0218446744073709551615\n",
    b"\x030\n", b"\x03-1\n", b"\x03-9223372036854775808\n", b"\x039223372036854775807\n", b"\x040\n", b"\x04-0.0\n", b"\x04NaN\n", b"\x04inf\n", b"\x04-1e308\n", b"\x050\n", b"\x053\n\xff\x00\n", b"\x060\n", b"\x064\n\xf0\x9f\xa6\x80"];
/// every statement, with the ends of every kind of literal in place of each of its literals
#[cfg(feature = "vp_p25")]
pub fn literals(g: &mut Gen) {
    let s = Srv::new();
    let part = g.range(0, 5);
    let setup = ["create space s", "create model s.m(k: string, n: uint64, null f: float64, l: list { type: string }, null b: bool)", "insert into s.m('k', 1, null, ['a'], true)"];
    let mut all: Vec<Vec<u8>> = setup.iter().map(|q| text(q)).collect();
    let n = all.len();
    let mut shown = vec![];
    for st in STMTS.iter().skip(part).step_by(6) {
        let w = words(st);
        for j in 0..w.len() {
            if w[j] != "?" && literal(&w[j]).is_none() { continue }
            for e in EXTREMES {
                let mut v = w.clone();
                let mut p = vec![];
                for (i, x) in v.iter_mut().enumerate() { if i == j { p.extend(*e); *x = "?".into() } else if let Some(b) = literal(x) { p.extend(b); *x = "?".into() } else if x == "?" { p.extend(b"\x061\nk") } }
                let q = v.join(" ");
                all.push(stmt(q.as_bytes(), &p)); shown.push(format!("{q} with {:?}", String::from_utf8_lossy(e)));
            }
        }
    }
    all.push(text("use null"));
    all.push(text("inspect global"));
    g.note(|| format!("part {part}"));
    let at = std::cell::RefCell::new(0usize);
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.session_at(b"root", ROOTPW.as_bytes(), &all, &at))) {
        Ok(r) => r.unwrap(),
        Err(_) => panic!("C[alive]: the server does not survive the statement {:?}", shown.get(at.borrow().wrapping_sub(n)).map(|s| s.as_str()).unwrap_or("")),
    };
    for (i, x) in r[..setup.len()].iter().enumerate() { assert!(*x == R::Empty, "C[setup]: statement {i}: {x:?}") }
    assert!(matches!(r[r.len() - 1], R::Str(_)) && r[r.len() - 2] == R::Empty, "C[alive]: after part {part} the connection answers {:?}", &r[r.len() - 2..]);
    if r[n..r.len() - 2].iter().any(|x| matches!(x, R::Err(_))) { g.nontrivial() }
}
/// one statement, cut after every word: as it is, followed by every word of the list, and with every word in place of the next
#[cfg(feature = "vp_p25")]
pub fn cuts(g: &mut Gen) {
    let s = Srv::new();
    let st = g.pick(STMTS);
    let w = words(st);
    let j = g.range(0, w.len());
    let near = g.u8() % 2 == 0;
    let setup = ["create space s", "create model s.m(k: string, n: uint64, null f: float64, l: list { type: string }, null b: bool)", "insert into s.m('k', 1, null, ['a'], true)"];
    let mut all: Vec<Vec<u8>> = setup.iter().map(|q| text(q)).collect();
    if near { all.push(text("use s")) }
    let n = all.len();
    let mut shown = vec![];
    for end in std::iter::once("").chain(WORDS.iter().copied()).chain(["<", ">", "!=", "% =", "~", "5", "'"]) {
        for rest in [0, 1] {
            if rest == 1 && j + 1 >= w.len() { continue }
            let mut v = w[..j].to_vec();
            if end != "" { v.push(end.into()) }
            if rest == 1 { v.extend_from_slice(&w[j + 1..]) }
            let mut p = vec![];
            for x in v.iter_mut() { if let Some(b) = literal(x) { p.extend(b); *x = "?".into() } }
            let q = v.join(" ");
            all.push(stmt(q.as_bytes(), &p)); shown.push(q);
        }
    }
    all.push(text("use null"));
    all.push(text("inspect global"));
    g.note(|| format!("{st:?} cut after {j} words{}", if near { ", with the space in use" } else { "" }));
    let at = std::cell::RefCell::new(0usize);
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.session_at(b"root", ROOTPW.as_bytes(), &all, &at))) {
        Ok(r) => r.unwrap(),
        Err(_) => panic!("C[alive]: the server does not survive the statement {:?}", shown.get(at.borrow().wrapping_sub(n)).map(|s| s.as_str()).unwrap_or("")),
    };
    for (i, x) in r[..setup.len()].iter().enumerate() { assert!(*x == R::Empty, "C[setup]: statement {i}: {x:?}") }
    assert!(matches!(r[r.len() - 1], R::Str(_)) && r[r.len() - 2] == R::Empty, "C[alive]: after {st:?} cut at {j} the connection answers {:?}", &r[r.len() - 2..]);
    if r[n..r.len() - 2].iter().any(|x| matches!(x, R::Err(_))) { g.nontrivial() }
}
/// deep nesting in statements is refused or handled, never fatal
#[cfg(feature = "vp_p25")]
pub fn deep(g: &mut Gen) {
    let s = Srv::new();
    let n = *g.pick(&[1usize, 2, 10, 100, 1000, 5000, 20000]);
    let (q, what) = match g.u8() % 6 {
        0 => (format!("insert into s.m('d', 1, null, {}{}, true)", "[".repeat(n), "]".repeat(n)), "list literal"),
        1 => (format!("create space t with {}{}", "{ a: ".repeat(n), "1 ".to_string() + &"}".repeat(n)), "dictionary"),
        2 => (format!("create model s.n(a: string, b: {}string{})", "list { type: ".repeat(n), " }".repeat(n)), "type"),
        3 => (format!("alter model s.m add c {{ type: {}string{} }}", "list { type: ".repeat(n), " }".repeat(n)), "type"),
        4 => (format!("insert into s.m('d', 1, null, {}", "[".repeat(n)), "open list"),
        _ => (format!("update s.m set l = {}{} where k = 'k'", "[".repeat(n), "]".repeat(n)), "list literal"),
    };
    g.note(|| format!("{what} {n}"));
    let all: Vec<Vec<u8>> = ["create space s", "create model s.m(k: string, n: uint64, null f: float64, l: list { type: string }, null b: bool)", &q, "inspect global"].iter().map(|q| text(q)).collect();
    let r = s.session(b"root", ROOTPW.as_bytes(), &all).unwrap();
    assert!(matches!(r[3], R::Str(_)), "C[alive]: after a {what} of depth {n}: {:?}", r[3]);
    g.nontrivial();
}
#[cfg(feature = "vp_p25")]
vp_native!(n_any_statement, any_statement, 120, 100);
#[cfg(feature = "vp_p25")]
vp_native!(n_cuts, cuts, 4, 60);
#[cfg(feature = "vp_p25")]
vp_native!(n_literals, literals, 2, 30);
#[cfg(feature = "vp_p25")]
vp_native!(n_deep, deep, 8, 20);
