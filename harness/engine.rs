// @attach server/src/engine/core/dml/mod.rs
// @feature p03 p06 p07 p08 p12 p15 p17 p18
// @native
//! Statement level contracts of the engine, executed on the real engine (parser, executor, storage) in memory.
//! Every harness compares the engine with itself before and after a statement through a small reference of what the
//! statement states; nothing here models the implementation.
use crate::engine::{
    core::{dml, model::ModelData, space::Space, EntityIDRef},
    data::{cell::Datacell, lit::Lit, tag::{DataTag, TagClass}},
    error::{QueryError, QueryResult},
    fractal::{test_utils::TestGlobal, GlobalInstanceLike},
    net::protocol::{Response, ResponseType},
    ql::{ast::parse_ast_node_full, ddl, dml as qdml, lex::{SecureLexer, Symbol, Token}},
};
use crate::vp::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum V { Null, Bool(bool), U(u64), S(i64), F(f64), Bin(Vec<u8>), Str(String), List(Vec<V>) }
impl V {
    /// equal as stored values (floats bit for bit)
    fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::F(a), V::F(b)) => a.to_bits() == b.to_bits(),
            (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (a, b) => a == b,
        }
    }
}
fn same_row(a: &[V], b: &[V]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)) }
fn same_rows(a: &[Vec<V>], b: &[Vec<V>]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_row(x, y)) }

#[derive(Clone, Debug, PartialEq)]
pub enum T { Bool, U(u8), S(u8), F32, F64, Bin, Str, List(Box<T>) }
impl T {
    fn name(&self) -> String {
        match self {
            T::Bool => "bool".into(), T::U(b) => format!("uint{b}"), T::S(b) => format!("sint{b}"), T::F32 => "float32".into(), T::F64 => "float64".into(),
            T::Bin => "binary".into(), T::Str => "string".into(), T::List(t) => format!("list {{ type: {} }}", t.name()),
        }
    }
    /// as in the output of DESCRIBE
    fn shown(&self) -> String { match self { T::List(t) => format!("[{}]", t.shown()), t => t.name() } }
    fn accepts(&self, v: &V) -> bool {
        match (self, v) {
            (T::Bool, V::Bool(_)) | (T::Bin, V::Bin(_)) | (T::Str, V::Str(_)) => true,
            (T::U(b), V::U(v)) => *b == 64 || *v < 1 << b,
            (T::S(b), V::S(v)) => *b == 64 || (*v >= -(1i64 << (b - 1)) && *v < 1i64 << (b - 1)),
            (T::F32, V::F(v)) => *v >= f32::MIN as f64 && *v <= f32::MAX as f64,
            (T::F64, V::F(v)) => *v >= f64::MIN && *v <= f64::MAX,
            (T::List(t), V::List(l)) => l.iter().all(|x| t.accepts(x)),
            _ => false,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Col { name: String, ty: T, null: bool }
impl Col {
    fn takes(&self, v: &V) -> bool { if *v == V::Null { self.null } else { self.ty.accepts(v) } }
}
#[derive(Clone, Debug)]
pub struct Tbl { name: String, cols: Vec<Col>, pk: usize }
impl Tbl {
    fn create(&self) -> String {
        let c: Vec<String> = self.cols.iter().enumerate().map(|(i, c)| format!("{}{}{}: {}", if i == self.pk && self.pk != 0 { "primary " } else { "" }, if c.null { "null " } else { "" }, c.name, c.ty.name())).collect();
        format!("create model {}({})", self.name, c.join(", "))
    }
    fn shown(&self) -> String {
        let c: Vec<String> = self.cols.iter().enumerate().map(|(i, c)| format!("{}{}:{}", if i == self.pk { "*" } else if c.null { "?" } else { "!" }, c.name, c.ty.shown())).collect();
        format!("{{{}}}", c.join(","))
    }
    fn pkname(&self) -> &str { &self.cols[self.pk].name }
}

// ---------------------------------------------------------------- driving the engine
static NEXT: AtomicU64 = AtomicU64::new(0);
pub struct Db { g: Option<TestGlobal>, log: String, pressure: Option<usize> }
fn push_lit<'a>(out: &mut Vec<Token<'a>>, v: &'a V) {
    match v {
        V::Null => out.push(Token![null]),
        V::Bool(b) => out.push(Token::Lit(Lit::new_bool(*b))),
        V::U(u) => out.push(Token::Lit(Lit::new_uint(*u))),
        V::S(u) => out.push(Token::Lit(Lit::new_sint(*u))),
        V::F(u) => out.push(Token::Lit(Lit::new_float(*u))),
        V::Bin(b) => out.push(Token::Lit(Lit::new_bin(b))),
        V::Str(s) => out.push(Token::Lit(Lit::new_str(s))),
        V::List(l) => {
            out.push(Token::Symbol(Symbol::TtOpenSqBracket));
            for (i, e) in l.iter().enumerate() { if i != 0 { out.push(Token::Symbol(Symbol::SymComma)) } push_lit(out, e) }
            out.push(Token::Symbol(Symbol::TtCloseSqBracket));
        }
    }
}
/// the tokens of a statement whose n-th `?` is the n-th value (built here, so that parameter decoding is not involved)
fn tokens<'a>(text: &'a str, vals: &'a [V]) -> Vec<Token<'a>> {
    let mut out = vec![];
    let mut vals = vals.iter();
    for t in SecureLexer::new_with_segments(text.as_bytes(), &[]).lex().unwrap_or_else(|e| panic!("harness: {text:?}: {e:?}")) {
        match t { Token::Symbol(Symbol::SymQuestion) => push_lit(&mut out, vals.next().expect("harness: too few values")), t => out.push(t) }
    }
    assert!(vals.next().is_none(), "harness: too many values");
    out
}
pub fn to_v(d: &Datacell) -> V {
    if d.is_null() { return V::Null }
    match d.kind() {
        TagClass::Bool => V::Bool(d.try_bool().unwrap()),
        TagClass::UnsignedInt => V::U(d.try_uint().unwrap()),
        TagClass::SignedInt => V::S(d.try_sint().unwrap()),
        TagClass::Float => V::F(d.try_float().unwrap()),
        TagClass::Bin => V::Bin(d.try_bin().unwrap().to_vec()),
        TagClass::Str => V::Str(d.try_str().unwrap().to_owned()),
        TagClass::List => V::List(d.try_list().unwrap().read().iter().map(to_v).collect()),
    }
}
impl Db {
    pub fn new(pressure: Option<usize>) -> Self {
        drain_traces();
        let mut me = Self { g: None, log: format!("vp_engine_{}.gns", NEXT.fetch_add(1, Ordering::Relaxed)), pressure };
        me.open();
        me
    }
    fn open(&mut self) {
        let mut g = TestGlobal::new_with_driver_id(&self.log);
        if let Some(p) = self.pressure { g.set_max_data_pressure(p) }
        self.g = Some(g);
    }
    /// shut down cleanly and start again
    pub fn restart(&mut self) { self.g = None; self.open() }
    fn g(&self) -> &TestGlobal { self.g.as_ref().unwrap() }
    pub fn run(&self, text: &str, vals: &[V]) -> QueryResult<()> {
        let t = tokens(text, vals);
        let g = self.g();
        let w: Vec<&str> = text.split_whitespace().take(3).collect();
        match (w[0], w[1]) {
            ("create", "space") => Space::transactional_exec_create(g, parse_ast_node_full(&t[2..])?).map(|_| ()),
            ("alter", "space") => Space::transactional_exec_alter(g, parse_ast_node_full(&t[2..])?),
            ("drop", "space") => Space::transactional_exec_drop(g, parse_ast_node_full(&t[2..])?).map(|_| ()),
            ("create", "model") => ModelData::transactional_exec_create(g, parse_ast_node_full(&t[2..])?).map(|_| ()),
            ("alter", "model") => ModelData::transactional_exec_alter(g, parse_ast_node_full(&t[2..])?),
            ("drop", "model") => ModelData::transactional_exec_drop(g, parse_ast_node_full(&t[2..])?).map(|_| ()),
            ("insert", _) => dml::insert(g, parse_ast_node_full(&t[1..])?),
            ("update", _) => dml::update(g, parse_ast_node_full(&t[1..])?),
            ("delete", _) => dml::delete(g, parse_ast_node_full(&t[1..])?),
            x => panic!("harness: statement {x:?}"),
        }
    }
    pub fn select(&self, text: &str, vals: &[V]) -> QueryResult<Vec<V>> {
        let t = tokens(text, vals);
        let mut r = vec![];
        dml::select_custom(self.g(), parse_ast_node_full(&t[1..])?, |c| r.push(to_v(c)))?;
        Ok(r)
    }
    pub fn select_all(&self, text: &str) -> QueryResult<Vec<Vec<V>>> {
        let lim = [V::U(1000000)];
        let t = tokens(text, &lim);
        let mut r: Vec<Vec<V>> = vec![];
        let mut flat: Vec<V> = vec![];
        let mut cols = 0;
        let n = dml::select_all(self.g(), parse_ast_node_full(&t[2..])?, &mut flat, |_, _, c| cols = c, |f, c, _| f.push(to_v(c)))?;
        if cols == 0 { assert!(flat.is_empty()); return Ok(vec![vec![]; n]) }
        assert!(flat.len() == n * cols, "C[select all]: {} cells for {n} rows of {cols} columns", flat.len());
        Ok(flat.chunks(cols).map(|c| c.to_vec()).collect())
    }
    /// all rows, sorted
    pub fn rows(&self, model: &str) -> Vec<Vec<V>> {
        let mut r = self.select_all(&format!("select all * from {model} limit ?")).unwrap_or_else(|e| panic!("C[read]: reading all rows of {model} fails: {e:?}"));
        r.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
        r
    }
    pub fn shown(&self, model: &str) -> Option<String> {
        let (s, m) = model.split_once('.').unwrap();
        let models = self.g().state().namespace().idx_models().read();
        models.get(&EntityIDRef::new(s, m)).map(|m| m.data().describe().to_lowercase())
    }
    pub fn fields(&self, model: &str) -> Vec<String> {
        use crate::engine::idx::STIndexSeq;
        let (s, m) = model.split_once('.').unwrap();
        let models = self.g().state().namespace().idx_models().read();
        models.get(&EntityIDRef::new(s, m)).map(|m| m.data().fields().stseq_ord_key().map(|k| k.as_str().to_owned()).collect()).unwrap_or_default()
    }
}
fn drain_traces() { let _ = crate::engine::core::model::layer_traces(); }

// ---------------------------------------------------------------- generators
fn ty(g: &mut Gen, depth: usize) -> T {
    match g.u8() % if depth == 0 { 9 } else { 12 } {
        0 => T::Bool, 1 | 2 => T::U([8, 16, 32, 64][g.range(0, 3)]), 3 | 4 => T::S([8, 16, 32, 64][g.range(0, 3)]), 5 => T::F32, 6 => T::F64, 7 => T::Bin, 8 => T::Str,
        _ => T::List(Box::new(ty(g, depth - 1))),
    }
}
fn pk_ty(g: &mut Gen) -> T {
    match g.u8() % 6 { 0 => T::U(8), 1 => T::U([16, 32, 64][g.range(0, 2)]), 2 => T::S([8, 16][g.range(0, 1)]), 3 => T::S([32, 64][g.range(0, 1)]), 4 => T::Bin, _ => T::Str }
}
fn string(g: &mut Gen) -> String {
    let n = g.range(0, 6);
    (0..n).map(|_| *g.pick(&['a', 'b', '\0', '\n', '\'', '"', '?', ' ', 'é', '😃', 'z', '0'])).collect()
}
/// a value of the class of the type, often at or just beyond the limits of its width
fn val(g: &mut Gen, t: &T) -> V {
    match t {
        T::Bool => V::Bool(g.bool()),
        T::U(b) => V::U(match g.u8() % 4 { 0 => g.u8() as u64 % 8, 1 if *b < 64 => (1u64 << b) - 1 + g.u8() as u64 % 3 - (g.u8() % 2) as u64, 2 if *b < 64 => g.u64() & ((1 << b) - 1), _ => g.u64() }),
        T::S(b) => V::S(match g.u8() % 5 {
            0 => g.u8() as i64 % 16 - 8, 1 if *b < 64 => (1i64 << (b - 1)) + g.u8() as i64 % 5 - 3, 2 if *b < 64 => -(1i64 << (b - 1)) + g.u8() as i64 % 5 - 3,
            3 if *b < 64 => { let m = 1i64 << (b - 1); (g.u64() & (m as u64 * 2 - 1)) as i64 - m }
            _ => g.i64(),
        }),
        T::F32 | T::F64 => V::F(match g.u8() % 8 {
            0 => *g.pick(&[0.0, -0.0, 1.0, 0.1, -0.1, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            1 => *g.pick(&[f32::MAX as f64, f32::MIN as f64, f64::MAX, f64::MIN, f32::MAX as f64 * 1.0000001, f32::MIN as f64 * 1.0000001, 1e39, -1e39, 1e308, f64::MIN_POSITIVE, 5e-324]),
            2 | 3 => f64::from_bits(g.u64()),
            _ => (g.u8() as f64 - 100.0) / 8.0,
        }),
        T::Bin => V::Bin(g.bytes(6)),
        T::Str => V::Str(string(g)),
        T::List(t) => { let n = g.range(0, 4); let mut odd = g.u8() % 8 == 0; V::List((0..n).map(|_| if odd && g.bool() { odd = false; let t2 = ty(g, 1); good(g, &t2) } else { good_or(g, t) }).collect()) }
    }
}
fn good_or(g: &mut Gen, t: &T) -> V { if g.u8() % 6 == 0 { val(g, t) } else { good(g, t) } }
/// a conforming value
fn good(g: &mut Gen, t: &T) -> V {
    if let T::List(e) = t { let n = g.range(0, 3); return V::List((0..n).map(|_| good(g, e)).collect()) }
    let v = val(g, t);
    if t.accepts(&v) { return v }
    match (t, v) {
        (T::U(b), V::U(v)) => V::U(v & ((1u64 << b) - 1)),
        (T::S(b), V::S(v)) => V::S(v >> (64 - b)),
        _ => V::F(1.5),
    }
}
fn good_null(g: &mut Gen, c: &Col) -> V { if c.null && g.u8() % 4 == 0 { V::Null } else { good(g, &c.ty) } }
fn has_null_or_mixed(v: &V) -> bool {
    // list literals with nulls or elements of different kinds are not part of the query grammar
    match v {
        V::List(l) => l.iter().any(|x| *x == V::Null || has_null_or_mixed(x)) || l.windows(2).any(|w| std::mem::discriminant(&w[0]) != std::mem::discriminant(&w[1])),
        _ => false,
    }
}
fn table(g: &mut Gen, name: &str, maxcols: usize, depth: usize) -> Tbl {
    let n = g.range(1, maxcols);
    let pk = if g.u8() % 3 == 0 { g.range(0, n - 1) } else { 0 };
    Tbl { name: name.into(), pk, cols: (0..n).map(|i| if i == pk { Col { name: format!("c{i}"), ty: pk_ty(g), null: false } } else { Col { name: format!("c{i}"), ty: ty(g, depth), null: g.bool() } }).collect() }
}
fn db_with(g: &mut Gen, t: &Tbl) -> Option<Db> {
    let p = if g.u8() % 4 == 0 { Some(1 + g.u8() as usize % 4) } else { None };
    let db = Db::new(p);
    db.run("create space s", &[]).unwrap();
    match db.run(&t.create(), &[]) { Ok(()) => Some(db), Err(_) => { g.assume(false); None } }
}
/// insert statement in positional or named form
fn insert_stmt(g: &mut Gen, t: &Tbl, row: &[V]) -> (String, Vec<V>) {
    if g.bool() {
        (format!("insert into {}({})", t.name, vec!["?"; row.len()].join(", ")), row.to_vec())
    } else {
        let mut ix: Vec<usize> = (0..row.len()).collect();
        if g.bool() { ix.reverse() }
        if ix.len() > 2 && g.bool() { ix.rotate_left(1) }
        (format!("insert into {} {{ {} }}", t.name, ix.iter().map(|i| format!("{}: ?", t.cols[*i].name)).collect::<Vec<_>>().join(", ")), ix.iter().map(|i| row[*i].clone()).collect())
    }
}
fn sorted(mut r: Vec<Vec<V>>) -> Vec<Vec<V>> { r.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}"))); r }

// ---------------------------------------------------------------- P06
/// a value is stored exactly when it conforms to its column, unchanged; otherwise nothing changes
#[cfg(feature = "vp_p06")]
pub fn conform(g: &mut Gen) {
    let t = table(g, "s.m", 4, 3);
    let Some(db) = db_with(g, &t) else { return };
    g.note(|| t.create());
    for k in 0..g.range(1, 4) {
        let mut row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
        // usually a single odd value
        if g.u8() % 4 != 0 {
            let i = g.range(0, row.len() - 1);
            row[i] = match g.u8() % 8 { 0 => V::Null, 1 | 2 => { let t2 = ty(g, 2); good(g, &t2) } _ => val(g, &t.cols[i].ty) };
        }
        if row.iter().any(has_null_or_mixed) { continue }
        let (mut s, mut vals) = insert_stmt(g, &t, &row);
        let mut shape_ok = true;
        match g.u8() % 16 {
            0 => { s = format!("insert into s.m({})", vec!["?"; row.len() + 1].join(", ")); vals = row.clone(); vals.push(V::U(1)); shape_ok = false }
            1 if row.len() > 1 => { s = format!("insert into s.m({})", vec!["?"; row.len() - 1].join(", ")); vals = row[..row.len() - 1].to_vec(); shape_ok = false }
            2 => { s = format!("insert into s.m {{ {} }}", t.cols.iter().enumerate().map(|(i, c)| format!("{}: ?", if i == row.len() - 1 { "nope" } else { &c.name })).collect::<Vec<_>>().join(", ")); vals = row.clone(); shape_ok = false }
            _ => {}
        }
        let before = db.rows("s.m");
        if before.iter().any(|r| r[t.pk].same(&row[t.pk])) { continue }
        let want = shape_ok && t.cols.iter().zip(&row).all(|(c, v)| c.takes(v));
        g.note(|| format!("{k}: {s} {vals:?}"));
        let got = db.run(&s, &vals);
        assert!(got.is_ok() == want, "C[conform]: {} into {}: expected {}, got {got:?}", format!("{row:?}"), t.shown(), if want { "to be accepted" } else { "to be rejected" });
        let after = db.rows("s.m");
        let mut exp = before.clone();
        if want { exp.push(row.clone()) }
        assert!(same_rows(&after, &sorted(exp)), "C[conform]: rows before {before:?}, after inserting {row:?} ({got:?}): {after:?}");
        g.nontrivial();
    }
}
/// the same for assignments
#[cfg(feature = "vp_p06")]
pub fn conform_assign(g: &mut Gen) {
    let t = table(g, "s.m", 4, 2);
    let Some(db) = db_with(g, &t) else { return };
    let row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
    if row.iter().any(has_null_or_mixed) { g.assume(false); return }
    let (s, vals) = insert_stmt(g, &t, &row);
    if db.run(&s, &vals).is_err() { g.assume(false); return }
    g.note(|| format!("{} row {row:?}", t.create()));
    for _ in 0..g.range(1, 3) {
        let i = g.range(0, t.cols.len() - 1);
        if i == t.pk { continue }
        let mut v = match g.u8() % 6 { 0 => { let t2 = ty(g, 2); good(g, &t2) } _ => val(g, &t.cols[i].ty) };
        let mut add = false;
        if let T::List(e) = &t.cols[i].ty { if g.u8() % 4 != 0 { add = true; v = match g.u8() % 4 { 0 => { let t2 = ty(g, 1); good(g, &t2) } _ => val(g, e) } } }
        if matches!(v, V::List(_)) { continue }   // assignments take a single literal
        let before = db.rows("s.m");
        let s = format!("update s.m set {} {} ? where {} = ?", t.cols[i].name, if add { "+=" } else { "=" }, t.pkname());
        let want = match (&t.cols[i].ty, add) { (T::List(e), true) => matches!(before[0][i], V::List(_)) && e.accepts(&v), (ty, _) => ty.accepts(&v) };
        let got = db.run(&s, &[v.clone(), row[t.pk].clone()]);
        g.note(|| format!("{s} {v:?}"));
        assert!(got.is_ok() == want, "C[conform]: {s} with {v:?} on {} in {before:?}: expected {}, got {got:?}", t.shown(), if want { "to be accepted" } else { "to be rejected" });
        let mut exp = before.clone();
        if want { if add { let V::List(l) = &mut exp[0][i] else { panic!() }; l.push(v.clone()) } else { exp[0][i] = v.clone() } }
        let after = db.rows("s.m");
        assert!(same_rows(&after, &exp), "C[conform]: {s} with {v:?} ({got:?}): before {before:?} after {after:?}");
        g.nontrivial();
    }
}
// ---------------------------------------------------------------- P07
#[cfg(any(feature = "vp_p07", feature = "vp_p18"))]
/// the value an assignment states, or None when it has to fail
fn assigned(c: &Col, old: &V, op: &str, rhs: &V) -> Option<V> {
    let r = match (&c.ty, old, rhs) {
        (T::List(e), V::List(l), x) if op == "+=" => { if !e.accepts(x) { return None } let mut l = l.clone(); l.push(x.clone()); return Some(V::List(l)) }
        (_, V::Null, _) if op != "=" => return None,
        (_, _, x) if op == "=" => x.clone(),
        (T::U(_), V::U(a), V::U(b)) => {
            let (a, b) = (*a as u128, *b as u128);
            let r = match op { "+=" => a + b, "-=" => a.checked_sub(b)?, "*=" => a * b, _ => a.checked_div(b)? };
            if r > u64::MAX as u128 { return None }
            V::U(r as u64)
        }
        (T::S(_), V::S(a), V::S(b)) => {
            let (a, b) = (*a as i128, *b as i128);
            let r = match op { "+=" => a + b, "-=" => a - b, "*=" => a * b, _ => a.checked_div(b)? };
            if r > i64::MAX as i128 || r < i64::MIN as i128 { return None }
            V::S(r as i64)
        }
        (T::F32 | T::F64, V::F(a), V::F(b)) => V::F(match op { "+=" => a + b, "-=" => a - b, "*=" => a * b, _ => a / b }),
        (T::Str, V::Str(a), V::Str(b)) if op == "+=" => V::Str(format!("{a}{b}")),
        (T::Bin, V::Bin(a), V::Bin(b)) if op == "+=" => V::Bin([&a[..], b].concat()),
        _ => return None,
    };
    if c.ty.accepts(&r) { Some(r) } else { None }
}
#[cfg(feature = "vp_p07")]
pub fn update(g: &mut Gen) {
    let t = table(g, "s.m", 5, 2);
    let Some(db) = db_with(g, &t) else { return };
    let mut stored: Vec<V> = vec![];
    for _ in 0..g.range(1, 2) {
        let row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
        if row.iter().any(has_null_or_mixed) { g.assume(false); return }
        let (s, vals) = insert_stmt(g, &t, &row);
        if db.run(&s, &vals).is_ok() { stored = row }
    }
    if stored.is_empty() { g.assume(false); return }
    g.note(|| format!("{}", t.create()));
    for _ in 0..g.range(1, 4) {
        let before = db.rows("s.m");
        let Some(at) = before.iter().position(|r| r[t.pk].same(&stored[t.pk])) else { g.assume(false); return };
        let mut exp = Some(before[at].clone());
        let n = g.range(1, 4);
        let (mut parts, mut vals) = (vec![], vec![]);
        for _ in 0..n {
            let i = g.range(0, t.cols.len() - 1);
            let c = &t.cols[i];
            let op = *g.pick(&["=", "+=", "-=", "*=", "/=", "+="]);
            let mut v = match g.u8() % 8 {
                0 => { let t2 = ty(g, 0); good(g, &t2) }
                1 => match c.ty { T::U(_) => V::U(g.u8() as u64 % 3), T::S(_) => V::S(g.u8() as i64 % 3 - 1), T::F32 | T::F64 => V::F(g.u8() as f64 % 3.0), _ => val(g, &c.ty) },
                _ => match &c.ty { T::List(e) if g.u8() % 8 != 0 => good_or(g, e), ty => good_or(g, ty) },
            };
            if let V::List(_) = v { v = V::U(1) }
            let name = if g.u8() % 24 == 0 { "nope".to_string() } else { c.name.clone() };
            exp = exp.and_then(|mut e| {
                if name == "nope" || i == t.pk { return None }
                e[i] = assigned(c, &e[i], op, &v)?;
                Some(e)
            });
            parts.push(format!("{name} {op} ?"));
            vals.push(v);
        }
        let s = format!("update s.m set {} where {} = ?", parts.join(", "), t.pkname());
        vals.push(stored[t.pk].clone());
        g.note(|| format!("{s} {vals:?} on {:?}", before[at]));
        let got = db.run(&s, &vals);
        assert!(got.is_ok() == exp.is_some(), "C[update]: {s} {vals:?} on row {:?} of {}: expected {exp:?}, got {got:?}", before[at], t.shown());
        let after = db.rows("s.m");
        let mut want = before.clone();
        let (ok, e) = match exp { Some(e) => (true, e), None => (false, before[at].clone()) };
        want[at] = e;
        assert!(same_rows(&after, &sorted(want.clone())), "C[update]: {s} {vals:?} ({}): row {:?} should be {:?}, all rows after: {after:?}", if ok { "valid" } else { "invalid" }, before[at], want[at]);
        g.nontrivial();
    }
}

// ---------------------------------------------------------------- P08
#[cfg(feature = "vp_p08")]
pub fn keys(g: &mut Gen) {
    let kt = pk_ty(g);
    let t = Tbl { name: "s.m".into(), pk: 0, cols: vec![Col { name: "k".into(), ty: kt.clone(), null: false }, Col { name: "v".into(), ty: T::U(64), null: false }] };
    let Some(mut db) = db_with(g, &t) else { return };
    let pool: Vec<V> = match (&kt, g.u8() % 3) {
        (T::Str, 0) => ["", "a", "b", "ab", "ba", "\0", "a\0", "aaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaab"].iter().map(|s| V::Str(s.to_string())).collect(),
        (T::Bin, 0) => [&b""[..], b"a", b"b", b"ab", b"\0", b"\0\0", b"\xff"].iter().map(|s| V::Bin(s.to_vec())).collect(),
        (T::U(_), 0) => (0..8).map(V::U).collect(),
        (T::S(_), 0) => (-4..4).map(V::S).collect(),
        _ => (0..6).map(|_| good(g, &kt)).collect(),
    };
    g.note(|| format!("{} keys {pool:?}", t.create()));
    let mut m: BTreeMap<String, (V, u64)> = BTreeMap::new();
    let n = g.range(1, 40);
    for step in 0..n {
        let k = g.pick(&pool).clone();
        let id = format!("{k:?}");
        let have = m.get(&id).map(|x| x.1);
        let what = g.u8() % 10;
        g.note(|| format!("{} {k:?}", ["insert", "insert", "insert", "insert", "delete", "delete", "update", "select", "other class", "restart"][what as usize]));
        match what {
            0..=3 => {
                let r = db.run("insert into s.m(?, ?)", &[k.clone(), V::U(step as u64)]);
                assert!(r.is_ok() == have.is_none(), "C[keys]: insert of key {k:?}: {r:?}, the key {}", if have.is_some() { "is present" } else { "is not present" });
                if have.is_none() { m.insert(id, (k.clone(), step as u64)); }
            }
            4 | 5 => {
                let r = db.run("delete from s.m where k = ?", &[k.clone()]);
                assert!(r.is_ok() == have.is_some(), "C[keys]: delete of key {k:?}: {r:?}, the key {}", if have.is_some() { "is present" } else { "is not present" });
                m.remove(&id);
            }
            6 => {
                let r = db.run("update s.m set v = ? where k = ?", &[V::U(1000 + step as u64), k.clone()]);
                assert!(r.is_ok() == have.is_some(), "C[keys]: update of key {k:?}: {r:?}, present: {}", have.is_some());
                if have.is_some() { m.insert(id, (k.clone(), 1000 + step as u64)); }
            }
            8 => {
                // a literal of another type class never addresses a row
                let o = match &k { V::U(u) => V::S(*u as i64), V::S(s) => V::U(*s as u64), V::Bin(b) => V::Str(String::from_utf8_lossy(b).into_owned()), V::Str(s) => V::Bin(s.as_bytes().to_vec()), _ => V::Bool(true) };
                for s in ["select * from s.m where k = ?"] { let r = db.select(s, &[o.clone()]); assert!(r.is_err(), "C[keys]: {o:?} finds {r:?} in a table keyed by {kt:?}"); }
                let r = db.run("delete from s.m where k = ?", &[o.clone()]);
                assert!(r.is_err(), "C[keys]: {o:?} deletes from a table keyed by {kt:?}");
            }
            9 => if g.u8() % 4 == 0 { db.restart() },
            _ => {}
        }
        let r = db.select("select * from s.m where k = ?", &[k.clone()]);
        match (m.get(&format!("{k:?}")), &r) {
            (None, Err(QueryError::QExecDmlRowNotFound)) => {}
            (Some((_, v)), Ok(row)) if same_row(row, &[k.clone(), V::U(*v)]) => {}
            (w, r) => panic!("C[keys]: key {k:?} should give {w:?}, gives {r:?}"),
        }
        if m.len() > 1 { g.nontrivial() }
    }
    let all = db.rows("s.m");
    let want = sorted(m.values().map(|(k, v)| vec![k.clone(), V::U(*v)]).collect());
    assert!(same_rows(&all, &want), "C[keys]: rows {all:?}, expected {want:?}");
    for k in &pool {
        let r = db.select("select * from s.m where k = ?", &[k.clone()]);
        assert!(r.is_ok() == m.contains_key(&format!("{k:?}")), "C[keys]: {k:?} -> {r:?}");
    }
}

// ---------------------------------------------------------------- P03
#[cfg(feature = "vp_p03")]
mod resp {
    use super::*;
    struct D<'a> { b: &'a [u8], c: usize }
    impl<'a> D<'a> {
        fn byte(&mut self) -> u8 { let b = *self.b.get(self.c).expect("C[response]: truncated"); self.c += 1; b }
        fn line(&mut self) -> &'a str {
            let s = self.c;
            while self.byte() != b'\n' {}
            std::str::from_utf8(&self.b[s..self.c - 1]).expect("C[response]: numeral is not text")
        }
        fn num(&mut self) -> u64 {
            let l = self.line();
            let n: u64 = l.parse().unwrap_or_else(|_| panic!("C[response]: bad numeral {l:?}"));
            assert!(n.to_string() == l, "C[response]: {l:?} is not the shortest numeral");
            n
        }
        fn take(&mut self, n: u64) -> &'a [u8] { assert!(n <= (self.b.len() - self.c) as u64, "C[response]: length beyond the data"); let r = &self.b[self.c..self.c + n as usize]; self.c += n as usize; r }
        /// (marker, value)
        fn value(&mut self) -> (u8, V) {
            let m = self.byte();
            (m, match m {
                0 => V::Null,
                1 => V::Bool(match self.byte() { 0 => false, 1 => true, b => panic!("C[response]: bool {b}") }),
                2..=5 => V::U(self.num()),
                6..=9 => { let l = self.line(); let n: i64 = l.parse().unwrap_or_else(|_| panic!("C[response]: bad numeral {l:?}")); assert!(n.to_string() == l, "C[response]: {l:?} is not the shortest numeral"); V::S(n) }
                10 | 11 => { let l = self.line(); V::F(l.parse().unwrap_or_else(|_| panic!("C[response]: bad float {l:?}"))) }
                12 => { let n = self.num(); V::Bin(self.take(n).to_vec()) }
                13 => { let n = self.num(); V::Str(std::str::from_utf8(self.take(n)).expect("C[response]: string is not UTF-8").to_owned()) }
                14 => { let n = self.num(); V::List((0..n).map(|_| self.value().1).collect()) }
                m => panic!("C[response]: unknown marker {m}"),
            })
        }
    }
    fn fits(m: u8, v: &V) -> bool {
        match (m, v) {
            (2..=5, V::U(u)) => T::U([8, 16, 32, 64][m as usize - 2]).accepts(&V::U(*u)),
            (6..=9, V::S(u)) => T::S([8, 16, 32, 64][m as usize - 6]).accepts(&V::S(*u)),
            _ => true,
        }
    }
    fn marker(t: &T) -> u8 {
        let w = |b: &u8| match b { 8 => 0, 16 => 1, 32 => 2, _ => 3 };
        match t { T::Bool => 1, T::U(b) => 2 + w(b), T::S(b) => 6 + w(b), T::F32 => 10, T::F64 => 11, T::Bin => 12, T::Str => 13, T::List(_) => 14 }
    }
    fn same_sent(a: &V, b: &V) -> bool { a.same(b) }
    pub fn responses(g: &mut Gen) {
        let t = table(g, "s.m", 5, 3);
        let Some(db) = db_with(g, &t) else { return };
        let mut rows = vec![];
        for _ in 0..g.range(0, 3) {
            let row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
            if row.iter().any(has_null_or_mixed) { continue }
            let (s, vals) = insert_stmt(g, &t, &row);
            if db.run(&s, &vals).is_ok() { rows.push(row) }
        }
        g.note(|| format!("{} rows {rows:?}", t.create()));
        // a projection (possibly repeated, reordered) or *
        let proj: Vec<usize> = if g.bool() { (0..t.cols.len()).collect() } else { let n = g.range(1, t.cols.len()); (0..n).map(|_| g.range(0, t.cols.len() - 1)).collect() };
        let ptext = if proj.len() == t.cols.len() && proj.windows(2).all(|w| w[0] + 1 == w[1]) { "*".to_string() } else { proj.iter().map(|i| t.cols[*i].name.clone()).collect::<Vec<_>>().join(", ") };
        for row in &rows {
            let text = format!("select {ptext} from s.m where {} = ?", t.pkname());
            let key = [row[t.pk].clone()];
            let Ok(cells) = db.select(&text, &key) else { continue };
            let tk = tokens(&text, &key);
            match dml::select_resp(db.g(), parse_ast_node_full(&tk[1..]).unwrap()) {
                Ok(Response::Serialized { ty: ResponseType::Row, size, data }) => {
                    assert!(size == cells.len(), "C[response]: row of {} cells announced as {size}", cells.len());
                    let mut d = D { b: &data, c: 0 };
                    for (i, c) in cells.iter().enumerate() {
                        let (m, v) = d.value();
                        assert!(same_sent(&v, c), "C[response]: cell {c:?} is sent as {v:?} (marker {m})");
                        assert!(fits(m, &v), "C[response]: {v:?} does not fit marker {m}");
                        if proj[i] != t.pk { assert!(m == if *c == V::Null { 0 } else { marker(&t.cols[proj[i]].ty) }, "C[response]: column of type {:?} sent with marker {m}", t.cols[proj[i]].ty); }
                    }
                    assert!(d.c == data.len(), "C[response]: trailing bytes in row response");
                    if !cells.is_empty() { g.nontrivial() }
                }
                r => panic!("C[response]: select gives {r:?}"),
            }
        }
        let text = format!("select all {ptext} from s.m limit ?");
        let Ok(all) = db.select_all(&text) else { return };
        let lim = [V::U(1000)];
        let tk = tokens(&text, &lim);
        match dml::select_all_resp(db.g(), parse_ast_node_full(&tk[2..]).unwrap()) {
            Ok(Response::Serialized { ty: ResponseType::MultiRow, size, data }) => {
                assert!(size == all.len(), "C[response]: {} rows announced as {size}", all.len());
                let mut d = D { b: &data, c: 0 };
                let cols = d.num();
                let mut got = vec![];
                for _ in 0..size { got.push((0..cols).map(|i| { let (m, v) = d.value(); assert!(m == if v == V::Null { 0 } else { marker(&t.cols[proj[i as usize]].ty) }, "C[response]: column of type {:?} sent with marker {m}", t.cols[proj[i as usize]].ty); v }).collect::<Vec<_>>()) }
                assert!(d.c == data.len(), "C[response]: trailing bytes in multi row response");
                assert!(same_rows(&sorted(got.clone()), &sorted(all.clone())), "C[response]: rows {all:?} are sent as {got:?}");
            }
            r => panic!("C[response]: select all gives {r:?}"),
        }
    }
}
#[cfg(feature = "vp_p03")]
pub use resp::responses;

// ---------------------------------------------------------------- P18
#[cfg(any(feature = "vp_p18", feature = "vp_p15"))]
mod alter {
    use super::*;
    fn wider(g: &mut Gen, t: &T) -> T {
        let pickw = |g: &mut Gen, b: &u8| *g.pick(&[8u8, 16, 32, 64, *b, b.saturating_mul(2).clamp(8, 64)]);
        match t {
            T::U(b) => T::U(pickw(g, b)), T::S(b) => T::S(pickw(g, b)), T::F32 | T::F64 => if g.bool() { T::F64 } else { T::F32 },
            T::List(e) => T::List(Box::new(wider(g, e))), t => t.clone(),
        }
    }
    fn legal(old: &T, new: &T) -> bool {
        match (old, new) { (T::U(a), T::U(b)) | (T::S(a), T::S(b)) => a <= b, (T::F32, T::F64) => true, (T::List(a), T::List(b)) => legal(a, b), (a, b) => a == b }
    }
    fn decl(c: &Col, g: &mut Gen) -> String {
        format!("{} {{ type: {}{} }}", c.name, c.ty.name().replace("list {", "list {"), if c.null { ", nullable: true" } else if g.u8() % 4 == 0 { ", nullable: false" } else { "" })
    }
    fn list(v: Vec<String>) -> String { if v.len() == 1 { v[0].clone() } else { format!("({})", v.join(", ")) } }
    /// (statement, the table after it or None if it has to fail, for each new column the index of the old one)
    pub fn random(g: &mut Gen, t: &Tbl) -> (String, Option<(Tbl, Vec<Option<usize>>)>) {
        let names = ["c0", "c1", "c2", "c3", "n0", "n1", "n2", "c4"];
        let mut keep: Vec<Option<usize>> = (0..t.cols.len()).map(Some).collect();
        let mut new = t.clone();
        let mut ok = true;
        let many = if g.u8() % 3 == 0 { g.range(2, 3) } else { 1 };
        let s = match g.u8() % 3 {
            0 => {
                let mut parts = vec![];
                for _ in 0..many {
                    let c = Col { name: if g.u8() % 3 == 0 { g.pick(&names).to_string() } else { format!("n{}", g.range(0, 5)) }, ty: ty(g, 2), null: g.u8() % 4 != 0 };
                    ok &= new.cols.iter().all(|x| x.name != c.name);
                    parts.push(decl(&c, g));
                    new.cols.push(c); keep.push(None);
                }
                format!("alter model {} add {}", t.name, list(parts))
            }
            1 => {
                let mut parts: Vec<String> = vec![];
                for _ in 0..many {
                    let nm = if g.u8() % 6 == 0 { g.pick(&names).to_string() } else { g.pick(&t.cols).name.clone() };
                    match new.cols.iter().position(|c| c.name == nm) {
                        Some(i) if keep[i] != Some(t.pk) => { new.cols.remove(i); keep.remove(i); }
                        _ => ok = false,
                    }
                    parts.push(nm);
                }
                new.pk = keep.iter().position(|k| *k == Some(t.pk)).unwrap_or(0);
                format!("alter model {} remove {}", t.name, list(parts))
            }
            _ => {
                let mut parts: Vec<String> = vec![];
                let mut seen = vec![];
                for _ in 0..many {
                    let i = g.range(0, t.cols.len() - 1);
                    let old = &t.cols[i];
                    let mut c = Col { name: old.name.clone(), ty: match g.u8() % 6 { 0 => ty(g, 2), 1 | 2 => old.ty.clone(), _ => wider(g, &old.ty) }, null: if g.u8() % 4 == 0 { g.bool() } else { old.null || g.bool() } };
                    if g.u8() % 16 == 0 { c.name = "nope".into() }
                    ok &= c.name == old.name && i != t.pk && !seen.contains(&i) && legal(&old.ty, &c.ty) && (c.null || !old.null);
                    seen.push(i);
                    parts.push(decl(&c, g));
                    if c.name == old.name { new.cols[i] = c }
                }
                format!("alter model {} update {}", t.name, list(parts))
            }
        };
        (s, if ok { Some((new, keep)) } else { None })
    }
}
#[cfg(feature = "vp_p18")]
pub fn alter_model(g: &mut Gen) {
    let mut t = table(g, "s.m", 4, 2);
    let Some(mut db) = db_with(g, &t) else { return };
    g.note(|| t.create());
    for _ in 0..g.range(1, 8) {
        match g.u8() % 8 {
            0..=2 => {
                let row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
                if row.iter().any(has_null_or_mixed) { continue }
                let before = db.rows("s.m");
                if before.iter().any(|r| r[t.pk].same(&row[t.pk])) { continue }
                let (s, vals) = insert_stmt(g, &t, &row);
                g.note(|| format!("{s} {vals:?}"));
                let r = db.run(&s, &vals);
                assert!(r.is_ok(), "C[alter]: {row:?} conforms to {} after the schema changes but is rejected: {r:?}", t.shown());
                let mut want = before.clone(); want.push(row);
                assert!(same_rows(&db.rows("s.m"), &sorted(want)), "C[alter]: insert after schema change");
            }
            3 => {
                // assign one field of an existing row
                let before = db.rows("s.m");
                if before.is_empty() { continue }
                let at = g.range(0, before.len() - 1);
                let i = g.range(0, t.cols.len() - 1);
                let v = good(g, &t.cols[i].ty);
                if i == t.pk || matches!(v, V::List(_)) { continue }
                let s = format!("update s.m set {} = ? where {} = ?", t.cols[i].name, t.pkname());
                g.note(|| format!("{s} {v:?} {:?}", before[at]));
                let r = db.run(&s, &[v.clone(), before[at][t.pk].clone()]);
                assert!(r.is_ok(), "C[alter]: {s} {v:?} on {:?} of {}: {r:?}", before[at], t.shown());
                let mut want = before.clone(); want[at][i] = v;
                assert!(same_rows(&db.rows("s.m"), &sorted(want)), "C[alter]: update after schema change");
            }
            4 => if g.u8() % 3 == 0 { g.note(|| "restart".into()); db.restart(); assert!(db.shown("s.m") == Some(t.shown()), "C[alter]: schema after restart {:?}, was {}", db.shown("s.m"), t.shown()) },
            _ => {
                let (s, want) = alter::random(g, &t);
                let before = db.rows("s.m");
                g.note(|| format!("{s} on {before:?}"));
                let got = db.run(&s, &[]);
                assert!(got.is_ok() == want.is_some(), "C[alter]: {s} on {}: expected {}, got {got:?}", t.shown(), if want.is_some() { "success" } else { "an error" });
                let rows = match want {
                    Some((t2, keep)) => { t = t2; before.iter().map(|r| keep.iter().map(|k| k.map(|k| r[k].clone()).unwrap_or(V::Null)).collect()).collect() }
                    None => before.clone(),
                };
                assert!(db.shown("s.m") == Some(t.shown()), "C[alter]: {s}: schema is {:?}, should be {}", db.shown("s.m"), t.shown());
                let after = db.rows("s.m");
                assert!(same_rows(&after, &sorted(rows)), "C[alter]: {s}: rows {before:?} became {after:?} ({})", t.shown());
                for r in &after {
                    let one = db.select(&format!("select * from s.m where {} = ?", t.pkname()), &[r[t.pk].clone()]);
                    assert!(matches!(&one, Ok(o) if same_row(o, r)), "C[alter]: reading {:?} by its key gives {one:?}", r);
                }
                if !after.is_empty() { g.nontrivial() }
            }
        }
    }
}

// ---------------------------------------------------------------- P15
#[cfg(feature = "vp_p15")]
pub fn restart(g: &mut Gen) {
    let p = if g.bool() { Some(1 + g.u8() as usize % 6) } else { None };
    let mut db = Db::new(p);
    db.run("create space s", &[]).unwrap();
    let mut tables: Vec<Tbl> = vec![];
    let n = g.range(2, 30);
    let mut did = 0;
    for _ in 0..n {
        match g.u8() % 16 {
            0 => { let k = g.range(0, 2); let t = table(g, &format!("s.m{k}"), 4, 2); g.note(|| t.create()); if db.run(&t.create(), &[]).is_ok() { tables.push(t) } }
            1 if !tables.is_empty() => { let i = g.range(0, tables.len() - 1); let s = format!("drop model {}", tables[i].name); g.note(|| s.clone()); if db.run(&s, &[]).is_ok() { tables.remove(i); } }
            2 => { let s = *g.pick(&["create space t", "drop space t", "create space t with { a: ? }", "alter space s with { a: ?, b: { c: ? } }", "alter space t with { a: ? }", "alter space s with { a: null }"]); let vals: Vec<V> = (0..s.matches('?').count()).map(|_| { let t = [T::U(64), T::Str, T::Bool, T::S(64), T::Bin][g.range(0, 4)].clone(); good(g, &t) }).collect(); g.note(|| format!("{s} {vals:?}")); let _ = db.run(s, &vals); }
            3..=5 if !tables.is_empty() => {
                let i = g.range(0, tables.len() - 1);
                let (s, want) = alter::random(g, &tables[i]);
                g.note(|| s.clone());
                if db.run(&s, &[]).is_ok() { if let Some((t, _)) = want { tables[i] = t } else { g.assume(false); return } }
            }
            6 => { g.note(|| "restart".into()); check(g, &mut db, &tables); did += 1 }
            7 | 8 if !tables.is_empty() => {
                let t = g.pick(&tables).clone();
                let rows = db.rows(&t.name);
                if rows.is_empty() { continue }
                let k = g.pick(&rows)[t.pk].clone();
                let s = format!("delete from {} where {} = ?", t.name, t.pkname());
                g.note(|| format!("{s} {k:?}"));
                let _ = db.run(&s, &[k]);
            }
            9..=11 if !tables.is_empty() => {
                let t = g.pick(&tables).clone();
                let rows = db.rows(&t.name);
                let i = g.range(0, t.cols.len() - 1);
                if rows.is_empty() || i == t.pk { continue }
                let k = g.pick(&rows)[t.pk].clone();
                let (op, v) = match &t.cols[i].ty { T::List(e) => ("+=", good(g, e)), T::Str => ("+=", good(g, &T::Str)), ty => ("=", good(g, ty)) };
                let s = format!("update {} set {} {op} ? where {} = ?", t.name, t.cols[i].name, t.pkname());
                if has_null_or_mixed(&v) || matches!(v, V::List(_)) { continue }
                g.note(|| format!("{s} {v:?} {k:?}"));
                let _ = db.run(&s, &[v, k]);
            }
            _ => {
                if tables.is_empty() { let t = table(g, "s.m0", 4, 2); g.note(|| t.create()); if db.run(&t.create(), &[]).is_ok() { tables.push(t) } continue }
                let t = g.pick(&tables).clone();
                let row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
                if row.iter().any(has_null_or_mixed) { continue }
                let (s, vals) = insert_stmt(g, &t, &row);
                g.note(|| format!("{s} {vals:?}"));
                let _ = db.run(&s, &vals);
            }
        }
    }
    if did == 0 || g.bool() { check(g, &mut db, &tables) }
    check(g, &mut db, &tables);

    fn spaces(db: &Db) -> BTreeMap<String, String> {
        let idx = db.g().state().namespace().idx().read();
        idx.iter().map(|(n, s)| { let mut m: Vec<String> = s.models().iter().map(|m| m.to_string()).collect(); m.sort(); (n.to_string(), format!("{:?} {:?} {m:?}", s.get_uuid(), dict(s.props()))) }).collect()
    }
    fn dict(d: &crate::engine::data::DictGeneric) -> BTreeMap<String, String> {
        d.iter().map(|(k, v)| (k.to_string(), match v { crate::engine::data::DictEntryGeneric::Data(c) => format!("{:?}", to_v(c)), crate::engine::data::DictEntryGeneric::Map(m) => format!("{:?}", dict(m)) })).collect()
    }
    fn dump(db: &Db) -> Vec<(String, Option<String>, Vec<Vec<V>>)> {
        let mut names: Vec<String> = db.g().state().namespace().idx_models().read().keys().map(|k| format!("{}.{}", k.space(), k.entity())).collect();
        names.sort();
        names.into_iter().map(|n| { let s = db.shown(&n); let r = db.rows(&n); (n, s, r) }).collect()
    }
    fn check(g: &mut Gen, db: &mut Db, tables: &[Tbl]) {
        let (s0, d0) = (spaces(db), dump(db));
        if let Err(m) = guarded(std::panic::AssertUnwindSafe(|| db.restart())) { panic!("C[restart]: the restart fails: {m}; before: {d0:?}") }
        let (s1, d1) = (spaces(db), dump(db));
        assert!(s0 == s1, "C[restart]: spaces before {s0:?} after {s1:?}");
        assert!(d0.len() == d1.len(), "C[restart]: models before {d0:?} after {d1:?}");
        for (a, b) in d0.iter().zip(&d1) {
            assert!(a.0 == b.0 && a.1 == b.1, "C[restart]: schema before {:?} {:?} after {:?} {:?}", a.0, a.1, b.0, b.1);
            assert!(same_rows(&a.2, &b.2), "C[restart]: rows of {} before {:?} after {:?}", a.0, a.2, b.2);
            if !a.2.is_empty() { g.nontrivial() }
        }
    }
}

// ---------------------------------------------------------------- P12
#[cfg(feature = "vp_p12")]
fn rows_of(m: &ModelData, t: &Tbl) -> Vec<Vec<V>> {
    use crate::engine::{data::tag::TagUnique, idx::{MTIndex, STIndex}};
    let g = crossbeam_epoch::pin();
    let mut r: Vec<Vec<V>> = m.primary_index().__raw_index().mt_iter_kv(&g).map(|(k, row)| {
        let row = row.read();
        t.cols.iter().enumerate().map(|(i, c)| if i == t.pk {
            unsafe { match k.tag() { TagUnique::UnsignedInt => V::U(k.read_uint()), TagUnique::SignedInt => V::S(k.read_uint() as i64), TagUnique::Str => V::Str(String::from_utf8(k.read_bin().to_vec()).unwrap()), _ => V::Bin(k.read_bin().to_vec()) } }
        } else { row.fields().st_get(c.name.as_str()).map(to_v).unwrap_or(V::Null) }).collect()
    }).collect();
    r.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    r
}
/// damaged files of a real database: opening reports an error or yields exactly the rows and schema of the undamaged file (or of an earlier
/// clean shutdown the file was cut back to); it never crashes
#[cfg(feature = "vp_p12")]
pub fn damaged_db(g: &mut Gen) {
    use crate::engine::{core::{EntityIDRef, GNSData}, storage::{__vp_stx as st, safe_interfaces::paths_v1, GNSDriver, ModelDriver}};
    let p = if g.bool() { Some(1 + g.u8() as usize % 6) } else { None };
    let mut db = Db::new(p);
    db.run("create space s", &[]).unwrap();
    let t = table(g, "s.m", 4, 2);
    if db.run(&t.create(), &[]).is_err() { g.assume(false); return }
    let path = {
        let ns = db.g().state().namespace();
        let sid = ns.idx().read().get("s").unwrap().get_uuid();
        let mid = ns.idx_models().read().get(&EntityIDRef::new("s", "m")).unwrap().data().get_uuid();
        paths_v1::model_path("s", sid, "m", mid)
    };
    let mut states = vec![];
    let (mut closed, mut gclosed) = (vec![], vec![]);
    for _ in 0..g.range(1, 3) {
        for _ in 0..g.range(0, 5) {
            let rows = db.rows("s.m");
            if rows.is_empty() || g.u8() % 4 != 0 {
                let row: Vec<V> = t.cols.iter().map(|c| good_null(g, c)).collect();
                if row.iter().any(has_null_or_mixed) { continue }
                let (s, vals) = insert_stmt(g, &t, &row);
                let _ = db.run(&s, &vals);
            } else {
                let k = g.pick(&rows)[t.pk].clone();
                let _ = db.run(&format!("delete from s.m where {} = ?", t.pkname()), &[k]);
            }
        }
        states.push(db.rows("s.m"));
        db.g = None;
        closed.push(st::get(&path));
        gclosed.push(st::get(&db.log));
        if g.u8() % 3 != 0 { db.open() } else { break }
    }
    if db.g.is_some() { states.push(db.rows("s.m")); db.g = None; closed.push(st::get(&path)); }
    let log = db.log.clone();
    let (gns, good) = (st::get(&log), closed.last().unwrap().clone());
    const HDR: usize = 64;
    for _ in 0..8 {
        let in_gns = g.u8() % 4 == 0;
        let src = if in_gns { &gns } else { &good };
        let mut b = src.clone();
        let n = b.len();
        let what = g.range(0, 6);
        let i = match g.range(0, 2) { 0 => n - 1 - g.range(0, 160).min(n - 1 - HDR), 1 => HDR + g.range(0, 200).min(n - 1 - HDR), _ => g.range(HDR, n - 1) };
        let j = (i + g.range(0, 40)).min(n);
        match what {
            0 | 1 => b[i] ^= 1 << g.range(0, 7),
            2 => b[i] = b[i].wrapping_add(g.u8()),
            3 => b.truncate(i),
            4 => { b.drain(i..j); }
            5 => { let x = b[i..j].to_vec(); b.splice(i..i, x); }
            _ => { for q in i..j { b[q] = if g.bool() { 0 } else { 255 } } }
        }
        if &b == src { continue }
        g.note(|| format!("damage {what} at {i}..{j} of {n} bytes of the {}", if in_gns { "system log" } else { "rows" }));
        st::put(&log, if in_gns { &b } else { &gns });
        st::put(&path, if in_gns { &good } else { &b });
        let t2 = t.clone();
        let r = guarded(std::panic::AssertUnwindSafe(|| -> Result<Vec<Vec<V>>, String> {
            let data = GNSData::empty();
            let _gns = GNSDriver::open_gns_with_name(&log, &data).map_err(|e| e.to_string())?;
            let m = data.idx_models().read();
            let m = m.get(&EntityIDRef::new("s", "m")).ok_or("no model".to_string())?;
            let _d = ModelDriver::open_model_driver(m.data(), &path).map_err(|e| e.to_string())?;
            Ok(rows_of(m.data(), &t2))
        }));
        match r {
            Err(m) => panic!("C[damage]: opening a damaged database crashes (damage {what} at {i}..{j} of {n} bytes of the {}): {m}", if in_gns { "system log" } else { "rows" }),
            Ok(Err(_)) => g.nontrivial(),
            Ok(Ok(rows)) => {
                let k = if in_gns { gclosed.iter().position(|c| *c == b).map(|_| states.len() - 1) } else { closed.iter().position(|c| *c == b) };
                match k {
                    Some(k) => assert!(same_rows(&rows, &states[k]), "C[cut]: rows cut back to an earlier shutdown replay differently"),
                    None => panic!("C[damage]: a damaged database is opened (damage {what} at {i}..{j} of {n} bytes of the {})", if in_gns { "system log" } else { "rows" }),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- P17
#[cfg(feature = "vp_p17")]
pub fn create_model(g: &mut Gen) {
    fn any_type(g: &mut Gen) -> (String, Option<T>) {
        if g.u8() % 5 != 0 { let t = ty(g, 3); return (t.name(), Some(t)) }
        let bad = g.pick(&["uint7", "uint", "int8", "sint65", "strin", "strings", "String", "list", "list { type: nope }", "bool8", "float", "float128", "list { type: list }", "binary { type: string }", "boolean", "uint8x", "x", "list { type: uint8, foo: true }", "list", "list { }"]).to_string();
        // the odd part at any depth
        let d = if g.u8() % 2 == 0 { 0 } else { g.range(1, 6) };
        ((0..d).fold(bad, |b, _| format!("list {{ type: {b} }}")), None)
    }
    let mut db = Db::new(None);
    db.run("create space s", &[]).unwrap();
    let mut have: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..g.range(1, 4) {
        let n = g.range(1, 5);
        let mut cols = vec![];
        let mut ok = true;
        let mut prim = vec![];
        let odd = g.u8() % 2 == 0;
        let one = g.u8() % 3 == 0;  // nothing odd but the type of the last column
        for i in 0..n {
            if one { let last = i == n - 1 && i > 0; let (tn, t) = if last { any_type(g) } else { let t = if i == 0 { pk_ty(g) } else { ty(g, 2) }; (t.name(), Some(t)) }; ok &= t.is_some(); cols.push((Col { name: format!("c{i}"), ty: t.unwrap_or(T::Bool), null: last }, tn, false)); continue }
            let name = if odd && g.u8() % 6 == 0 { format!("c{}", g.range(0, n)) } else { format!("c{i}") };
            let (tn, t) = if !odd || (i == 0 && g.u8() % 2 == 0) { let t = if i == 0 { pk_ty(g) } else { ty(g, 2) }; (t.name(), Some(t)) } else { any_type(g) };
            let null = if i == 0 && !odd { false } else { g.u8() % 3 == 0 };
            let p = if odd { g.u8() % 5 == 0 } else { false };
            ok &= t.is_some() && cols.iter().all(|(c, _, _): &(Col, String, bool)| c.name != name);
            if p { prim.push(i) }
            cols.push((Col { name, ty: t.unwrap_or(T::Bool), null }, tn, p));
        }
        ok &= prim.len() <= 1;
        let pk = prim.first().copied().unwrap_or(0);
        ok &= matches!(cols[pk].0.ty, T::U(_) | T::S(_) | T::Bin | T::Str) && !cols[pk].0.null;
        let space = if g.u8() % 12 == 0 { "nospace" } else { "s" };
        let m = format!("{space}.m{}", g.range(0, 1));
        let decl: Vec<String> = cols.iter().map(|(c, tn, p)| format!("{}{}{}: {tn}", if *p { "primary " } else { "" }, if c.null { "null " } else { "" }, c.name)).collect();
        let nx = g.u8() % 4 == 0;
        let s = format!("create model {}{m}({})", if nx { "if not exists " } else { "" }, decl.join(", "));
        let exists = have.contains_key(&m);
        let want = ok && space == "s" && (!exists || nx);
        g.note(|| s.clone());
        let got = db.run(&s, &[]);
        assert!(got.is_ok() == want, "C[create]: {s} (exists: {exists}): expected {}, got {got:?}", if want { "success" } else { "an error" });
        let t = Tbl { name: m.clone(), cols: cols.into_iter().map(|c| c.0).collect(), pk };
        if want && !exists { have.insert(m.clone(), t.shown()); g.nontrivial() }
        for round in 0..2 {
            let names: Vec<String> = { let models = db.g().state().namespace().idx_models().read(); let mut v: Vec<String> = models.keys().map(|k| format!("{}.{}", k.space(), k.entity())).collect(); v.sort(); v };
            assert!(names == have.keys().cloned().collect::<Vec<_>>(), "C[create]: after {s} the models are {names:?}, expected {:?}", have.keys());
            for (m, d) in &have { let sh = db.shown(m); assert!(sh.as_ref() == Some(d), "C[create]: after {s}, {m} is {sh:?}, declared {d}"); }
            let sm: Vec<String> = { let idx = db.g().state().namespace().idx().read(); let mut v: Vec<String> = idx.get("s").unwrap().models().iter().map(|m| format!("s.{m}")).collect(); v.sort(); v };
            assert!(sm == names, "C[create]: the space lists {sm:?}, the models are {names:?}");
            if round == 0 { if g.u8() % 4 == 0 { db.restart() } else { break } }
        }
    }
}

#[cfg(feature = "vp_p06")]
vp_native!(n_conform, conform, 160, 3000);
#[cfg(feature = "vp_p06")]
vp_native!(n_conform_assign, conform_assign, 160, 3000);
#[cfg(feature = "vp_p07")]
vp_native!(n_update, update, 220, 3000);
#[cfg(feature = "vp_p08")]
vp_native!(n_keys, keys, 220, 1500);
#[cfg(feature = "vp_p03")]
vp_native!(n_responses, responses, 220, 2000);
#[cfg(feature = "vp_p18")]
vp_native!(n_alter_model, alter_model, 300, 1500);
#[cfg(feature = "vp_p15")]
vp_native!(n_restart, restart, 500, 800);
#[cfg(feature = "vp_p17")]
vp_native!(n_create_model, create_model, 200, 2000);
#[cfg(feature = "vp_p12")]
vp_native!(n_database_damaged, damaged_db, 900, 100);
