// @attach server/src/engine/mem/scanner.rs
// @feature p01 p02 p04 p05
//! Contracts of the raw-pointer leaves of the byte scanner, which the Verus units take as given.
use super::*;
use crate::vp::*;

const MAXB: usize = 24;

fn with(g: &mut Gen, f: impl FnOnce(&mut Gen, &[u8], usize)) {
    let a: [u8; MAXB] = g.array();
    let n = g.range(0, MAXB);
    let c = g.range(0, n);
    f(g, &a[..n], c)
}
pub fn leaf_next_byte(g: &mut Gen) {
    with(g, |g, b, c| {
        if !g.assume(c < b.len()) { return }
        let mut s = unsafe { Scanner::new_with_cursor(b, c) };
        let r = unsafe { s.next_byte() };
        assert!(r == b[c], "C[next_byte]: does not return the byte under the cursor");
        assert!(s.cursor() == c + 1 && s.buffer_len() == b.len(), "C[next_byte]: cursor must advance by one");
        let s2 = unsafe { Scanner::new_with_cursor(b, c) };
        assert!(unsafe { s2.deref_cursor() } == b[c], "C[deref_cursor]");
        g.cover(true);
    })
}
pub fn leaf_next_chunk(g: &mut Gen) {
    with(g, |g, b, c| {
        if !g.assume(b.len() - c >= 6) { return }
        let mut s = unsafe { Scanner::new_with_cursor(b, c) };
        let r: [u8; 6] = unsafe { s.next_chunk() };
        assert!(r == b[c..c + 6], "C[next_chunk]: wrong bytes");
        assert!(s.cursor() == c + 6 && s.buffer_len() == b.len(), "C[next_chunk]: wrong cursor");
        g.cover(true);
    })
}
pub fn leaf_next_u64(g: &mut Gen) {
    with(g, |g, b, c| {
        if !g.assume(b.len() - c >= 8) { return }
        let mut s = unsafe { Scanner::new_with_cursor(b, c) };
        let r = unsafe { s.next_u64_le() };
        let mut x = 0u64;
        let mut i = 0;
        while i < 8 { x |= (b[c + i] as u64) << (8 * i); i += 1 }
        assert!(r == x, "C[next_u64_le]: wrong value");
        assert!(s.cursor() == c + 8, "C[next_u64_le]: wrong cursor");
        g.cover(true);
    })
}
pub fn leaf_next_chunk_variable(g: &mut Gen) {
    with(g, |g, b, c| {
        let n = g.range(0, MAXB);
        if !g.assume(b.len() - c >= n) { return }
        let mut s = unsafe { Scanner::new_with_cursor(b, c) };
        let r = unsafe { s.next_chunk_variable(n) };
        assert!(r.len() == n && r.as_ptr() == b[c..].as_ptr(), "C[next_chunk_variable]: not the sub-slice at the cursor");
        assert!(s.cursor() == c + n && s.buffer_len() == b.len(), "C[next_chunk_variable]: wrong cursor");
        g.cover(true);
    })
}
/// std: `u8::is_ascii_digit` (assumed by the Verus units), all 256 bytes
pub fn std_digit(g: &mut Gen) {
    let b = g.u8();
    assert!(b.is_ascii_digit() == (48 <= b && b <= 57), "C[std]: is_ascii_digit");
    g.cover(true);
}
#[cfg(kani)]
mod k {
    use super::*;
    #[kani::proof] #[kani::unwind(26)] fn kb_leaf_next_byte() { super::leaf_next_byte(&mut Gen) }
    #[kani::proof] #[kani::unwind(26)] fn kb_leaf_next_chunk() { super::leaf_next_chunk(&mut Gen) }
    #[kani::proof] #[kani::unwind(26)] fn kb_leaf_next_u64() { super::leaf_next_u64(&mut Gen) }
    #[kani::proof] #[kani::unwind(26)] fn kb_leaf_next_chunk_variable() { super::leaf_next_chunk_variable(&mut Gen) }
    #[kani::proof] fn k_std_digit() { super::std_digit(&mut Gen) }
}
vp_native!(n_leaf_next_byte, leaf_next_byte, 40, 500);
vp_native!(n_leaf_next_chunk, leaf_next_chunk, 40, 500);
vp_native!(n_leaf_next_u64, leaf_next_u64, 40, 500);
vp_native!(n_leaf_next_chunk_variable, leaf_next_chunk_variable, 40, 500);
