// @attach server/src/engine/data/dict.rs
// @feature p19
// @native
//! P19: the properties of a space. Merging is checked against the statement of the property, for generated dictionaries and
//! over the wire with restarts.
use super::*;
use crate::engine::net::__vp_srv::{pstr, stmt, Srv, R, ROOTPW};
use crate::engine::fractal::GlobalInstanceLike;
use crate::vp::*;
use std::collections::BTreeMap;

/// a value as it is written: its kind, and the value
#[derive(Clone, Debug, PartialEq)]
enum Pv { B(bool), U(u64), S(i64), F(f64), T(String), Null, Map(P) }
type P = BTreeMap<String, Pv>;
const KEYS: &[&str] = &["a", "b", "cc", "env", "key4"];
impl Pv {
    fn gen(g: &mut Gen, depth: usize, nulls: bool) -> Pv {
        match g.range(0, if depth == 0 { 5 } else { 8 }) {
            0 => if nulls { Pv::Null } else { Pv::U(1) },
            1 => Pv::B(g.bool()),
            2 => Pv::U(g.u64()),
            3 => Pv::S(-(g.u8() as i64)),
            4 => Pv::F(g.u8() as f64 / 8.0),
            5 => Pv::T(g.pick(&["", "x", "a longer text"]).to_string()),
            _ => Pv::Map(pmap(g, depth - 1, nulls)),
        }
    }
    fn kind(&self) -> u8 { match self { Pv::B(_) => 0, Pv::U(_) => 1, Pv::S(_) => 2, Pv::F(_) => 3, Pv::T(_) => 4, Pv::Null => 5, Pv::Map(_) => 6 } }
}
fn pmap(g: &mut Gen, depth: usize, nulls: bool) -> P {
    let n = g.range(0, 3);
    (0..n).map(|_| (g.pick(KEYS).to_string(), Pv::gen(g, depth, nulls))).collect()
}
/// what the statement of the property says about an alteration
fn merged(cur: &P, new: &P) -> Option<P> {
    let mut out = cur.clone();
    for (k, v) in new {
        match (cur.get(k), v) {
            (_, Pv::Null) => { out.remove(k); }
            (Some(Pv::Map(c)), Pv::Map(n)) => { out.insert(k.clone(), Pv::Map(merged(c, n)?)); }
            (None, Pv::Map(n)) => { out.insert(k.clone(), Pv::Map(merged(&P::new(), n)?)); }
            (Some(c), v) => { if c.kind() != v.kind() { return None } out.insert(k.clone(), v.clone()); }
            (None, v) => { out.insert(k.clone(), v.clone()); }
        }
    }
    Some(out)
}
fn flat(p: &P) -> P {
    p.iter().filter(|(_, v)| **v != Pv::Null).map(|(k, v)| (k.clone(), match v { Pv::Map(m) => Pv::Map(flat(m)), v => v.clone() })).collect()
}
fn to_dict(p: &P) -> DictGeneric {
    p.iter().map(|(k, v)| (k.clone().into_boxed_str(), match v {
        Pv::Null => DictEntryGeneric::Data(Datacell::null()),
        Pv::B(x) => DictEntryGeneric::Data(Datacell::new_bool(*x)),
        Pv::U(x) => DictEntryGeneric::Data(Datacell::new_uint_default(*x)),
        Pv::S(x) => DictEntryGeneric::Data(Datacell::new_sint_default(*x)),
        Pv::F(x) => DictEntryGeneric::Data(Datacell::new_float_default(*x)),
        Pv::T(x) => DictEntryGeneric::Data(Datacell::new_str(x.clone().into_boxed_str())),
        Pv::Map(m) => DictEntryGeneric::Map(to_dict(m)),
    })).collect()
}
fn same(d: &DictGeneric, p: &P) -> bool {
    d.len() == p.len() && d.iter().all(|(k, e)| match (e, p.get(&**k)) {
        (DictEntryGeneric::Map(m), Some(Pv::Map(q))) => same(m, q),
        (DictEntryGeneric::Data(c), Some(v)) => match v {
            Pv::Null => c.is_null(),
            Pv::B(x) => c.try_bool() == Some(*x),
            Pv::U(x) => c.try_uint() == Some(*x),
            Pv::S(x) => c.try_sint() == Some(*x),
            Pv::F(x) => c.try_float() == Some(*x),
            Pv::T(x) => c.try_str() == Some(x.as_str()),
            Pv::Map(_) => false,
        },
        _ => false,
    })
}
fn merge(g: &mut Gen) {
    let cur = pmap(g, 2, false);
    let mut d = to_dict(&cur);
    let mut cur = flat(&cur);
    d = rflatten_metadata(d);
    for _ in 0..g.range(1, 3) {
        let new = pmap(g, 2, true);
        g.note(|| format!("{cur:?} with {new:?}"));
        let want = merged(&cur, &new);
        let ok = rmerge_metadata(&mut d, to_dict(&new));
        assert!(ok == want.is_some(), "C[merge: accepted exactly the compatible properties] {cur:?} with {new:?}");
        if let Some(w) = want { g.nontrivial(); cur = w; }
        assert!(same(&d, &cur), "C[merge: exactly the stated change] want {cur:?} got {d:?}");
    }
}
fn flatten(g: &mut Gen) {
    let p = pmap(g, 3, true);
    g.note(|| format!("{p:?}"));
    g.cover(!p.is_empty());
    assert!(same(&rflatten_metadata(to_dict(&p)), &flat(&p)), "C[create: the properties without the nulls] {p:?}");
}
vp_native!(n_merge, merge, 60, 100);
vp_native!(n_flatten, flatten, 40, 100);

/// the text and parameters of a dictionary
fn text(p: &P, t: &mut String, par: &mut Vec<Vec<u8>>) {
    t.push('{');
    for (i, (k, v)) in p.iter().enumerate() {
        if i > 0 { t.push_str(", "); }
        t.push_str(k); t.push_str(": ");
        match v {
            Pv::Null => t.push_str("null"),
            Pv::B(x) => { t.push('?'); par.push(vec![1, *x as u8]) }
            Pv::U(x) => { t.push('?'); par.push(format!("\x02{x}\n").into_bytes()) }
            Pv::S(x) => { t.push('?'); par.push(format!("\x03{x}\n").into_bytes()) }
            Pv::F(x) => { t.push('?'); par.push(format!("\x04{x}\n").into_bytes()) }
            Pv::T(x) => { t.push('?'); par.push(pstr(x)) }
            Pv::Map(m) => text(m, t, par),
        }
    }
    t.push('}');
}
const SP: &[&str] = &["s", "t"];
/// histories of create, alter and drop space, with restarts
fn spaces(g: &mut Gen) {
    let mut db = Srv::new();
    let mut want: BTreeMap<String, P> = BTreeMap::new();
    for _ in 0..g.range(2, 8) {
        let name = g.pick(SP).to_string();
        let env = |p: &P| -> bool { p.is_empty() || (p.len() == 1 && matches!(p.get("env"), Some(Pv::Map(_) | Pv::Null))) };
        let mut par = vec![];
        let props = {
            let mut p = P::new();
            match g.range(0, 9) { 0 => {} 1 => { p = pmap(g, 1, true); } 2 => { p.insert("env".into(), Pv::Null); } _ => { p.insert("env".into(), Pv::Map(pmap(g, 2, true))); } }
            p
        };
        let (s, ok) = match g.range(0, 9) {
            0 => { db.restart(); g.note(|| "restart".into()); g.nontrivial(); (String::new(), true) }
            1..=3 => {
                let mut s = format!("create space {name}");
                if g.bool() || !props.is_empty() { s.push_str(" with "); text(&props, &mut s, &mut par); }
                let ok = env(&props) && !want.contains_key(&name);
                if ok {
                    let mut p = flat(&props);
                    p.entry("env".into()).or_insert(Pv::Map(P::new()));
                    want.insert(name, p);
                }
                (s, ok)
            }
            4 => {
                let s = format!("drop space {}{name}", if g.bool() { "allow not empty " } else { "" });
                (s, want.remove(&name).is_some())
            }
            _ => {
                let mut s = format!("alter space {name} with "); text(&props, &mut s, &mut par);
                let new = want.get(&name).filter(|_| env(&props)).and_then(|c| merged(c, &props));
                let ok = new.is_some();
                if let Some(mut p) = new { p.entry("env".into()).or_insert(Pv::Map(P::new())); want.insert(name, p); g.nontrivial(); }
                (s, ok)
            }
        };
        if !s.is_empty() {
            g.note(|| format!("{s} {par:?}"));
            let r = db.session(b"root", ROOTPW.as_bytes(), &[stmt(s.as_bytes(), &par.concat())]).expect("C[login]");
            assert!(matches!(r[0], R::Err(_)) != ok, "C[accepted exactly when valid] {s} {par:?}: {:?}", r[0]);
        }
        let sp = db.g().state().namespace().idx().read();
        assert!(sp.len() == want.len() && want.iter().all(|(k, p)| sp.get(k.as_str()).is_some_and(|x| same(x.props(), p))),
            "C[exactly the stated change] after {s} {par:?}: want {want:?} got {:?}", sp.iter().map(|(k, s)| (k.clone(), format!("{:?}", s.props()))).collect::<Vec<_>>());
    }
}
vp_native!(n_spaces, spaces, 160, 20);
