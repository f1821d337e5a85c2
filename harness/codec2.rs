// @attach server/src/engine/storage/common_encoding/r2.rs
// @feature p13 p14
//! P13 / P14: stored user events.
use super::*;
use crate::vp::*;

/// the three user events come back as they were 
pub fn users_of(g: &mut Gen, kind: usize, n: usize, p: usize) {
    let (a, h): ([u8; 3], [u8; 4]) = (g.array(), g.array());
    let mut i = 0;
    while i < n { g.assume(a[i] < 128); i += 1 }
    let name = unsafe { core::str::from_utf8_unchecked(&a[..n]) };
    let mut b = Vec::new();
    match kind { 0 => CreateUserTxn::default_full_enc(&mut b, CreateUserTxn::new(name, &h[..p])), 1 => AlterUserTxn::default_full_enc(&mut b, AlterUserTxn::new(name, &h[..p])), _ => DropUserTxn::default_full_enc(&mut b, DropUserTxn::new(name)) }
    let len = b.len();
    b.push(0x5A);
    let mut s = BufferedScanner::new(&b);
    match kind {
        0 | 1 => {
            let r = if kind == 0 { CreateUserTxn::default_full_dec(&mut s) } else { AlterUserTxn::default_full_dec(&mut s) };
            match &r { Ok(u) => assert!(u.username.as_bytes() == &a[..n] && *u.password == h[..p], "C[round]: name or hash of a user comes back differently"), Err(_) => assert!(false, "C[round]: a user event just encoded is refused") }
            core::mem::forget(r);
        }
        _ => { let r = DropUserTxn::default_full_dec(&mut s); match &r { Ok(u) => assert!(u.0.as_bytes() == &a[..n], "C[round]: the name of a dropped user comes back differently"), Err(_) => assert!(false, "C[round]: a user event just encoded is refused") } core::mem::forget(r); }
    }
    assert!(s.cursor() == len, "C[round]: a user event is not consumed exactly");
    g.cover(true);
}
pub fn users(g: &mut Gen) { let (k, n, p) = (g.range(0, 2), g.range(0, 3), g.range(0, 4)); users_of(g, k, n, p) }
/// any bytes: a value or an error, and never a byte outside
pub fn any_users_of<const N: usize>(g: &mut Gen, kind: usize) {
    let b: [u8; N] = g.array();
    let n = g.range(0, N);
    let mut s = BufferedScanner::new(&b[..n]);
    match kind {
        0 => { let r = CreateUserTxn::default_full_dec(&mut s); g.cover(r.is_ok()); core::mem::forget(r) }
        1 => { let r = AlterUserTxn::default_full_dec(&mut s); g.cover(r.is_ok()); core::mem::forget(r) }
        _ => { let r = DropUserTxn::default_full_dec(&mut s); g.cover(r.is_ok()); core::mem::forget(r) }
    }
    assert!(s.cursor() <= n, "C[clean]: decoding a user event reads past its end");
}
#[cfg(not(kani))]
pub fn bad_users(g: &mut Gen) {
    let (name, h) = (String::from_utf8_lossy(&g.bytes(9)).into_owned(), g.bytes(9));
    let kind = g.range(0, 2);
    let mut b = Vec::new();
    match kind { 0 => CreateUserTxn::default_full_enc(&mut b, CreateUserTxn::new(&name, &h)), 1 => AlterUserTxn::default_full_enc(&mut b, AlterUserTxn::new(&name, &h)), _ => DropUserTxn::default_full_enc(&mut b, DropUserTxn::new(&name)) }
    let b = super::super::r1::impls::gns::__vp_codec::damage(g, b);
    g.note(|| format!("{kind} {b:?}"));
    let f = |s: &mut BufferedScanner| match kind { 0 => CreateUserTxn::default_full_dec(s).ok().map(|u| (u.username, u.password)), 1 => AlterUserTxn::default_full_dec(s).ok().map(|u| (u.username, u.password)), _ => DropUserTxn::default_full_dec(s).ok().map(|u| (u.0, Box::default())) };
    let ok = super::super::r1::impls::gns::__vp_codec::contained(&b, "a user event", f, |a, b| a == b);
    g.cover(ok);
}
#[cfg(feature = "vp_p13")]
vp_native!(n_users, users, 40, 300);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_users, bad_users, 80, 300);
#[cfg(kani)]
use crate::engine::fractal::context::{self, Dmsg, Subsystem};
/// error context (a thread local used for messages only) is replaced by "no context"
#[cfg(kani)]
mod ctx { use super::*; pub fn o() -> Option<Subsystem> { None } pub fn d() -> Option<Dmsg> { None }
/// UTF-8 validation is taken to accept (its error path returns an error at once)
pub fn utf8(v: Vec<u8>) -> Result<String, std::string::FromUtf8Error> { Ok(unsafe { String::from_utf8_unchecked(v) }) } }
#[cfg(all(any(kani, test), feature = "vp_p13"))]
mod k {
    use super::*;
    pub fn u0(g: &mut Gen) { users_of(g, 0, 3, 2) }
    vp_kani!(kb_create, 10, u0, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d), kani::stub(std::string::String::from_utf8, ctx::utf8));
    pub fn u1(g: &mut Gen) { users_of(g, 1, 3, 2) }
    vp_kani!(kb_alter, 10, u1, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d), kani::stub(std::string::String::from_utf8, ctx::utf8));
    pub fn u2(g: &mut Gen) { users_of(g, 2, 3, 0) }
    vp_kani!(kb_drop, 10, u2, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d), kani::stub(std::string::String::from_utf8, ctx::utf8));
}
#[cfg(all(any(kani, test), feature = "vp_p14"))]
mod k {
    use super::*;
    pub fn au0(g: &mut Gen) { any_users_of::<27>(g, 0) }
    vp_kani!(kb_any_create, 30, au0, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d), kani::stub(std::string::String::from_utf8, ctx::utf8));
    pub fn au1(g: &mut Gen) { any_users_of::<27>(g, 1) }
    vp_kani!(kb_any_alter, 30, au1, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d), kani::stub(std::string::String::from_utf8, ctx::utf8));
    pub fn au2(g: &mut Gen) { any_users_of::<10>(g, 2) }
    vp_kani!(kb_any_drop, 12, au2, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d), kani::stub(std::string::String::from_utf8, ctx::utf8));
}
