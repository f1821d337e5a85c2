// ---- shared prelude (trusted text is marked TRUSTED) ----
pub trait VpAnd: Sized {
    spec fn vp_and_s(a: Self, b: Self) -> Self;
    spec fn vp_or_s(a: Self, b: Self) -> Self;
    fn vp_and_x(a: Self, b: Self) -> (r: Self) ensures r == Self::vp_and_s(a, b);
    fn vp_or_x(a: Self, b: Self) -> (r: Self) ensures r == Self::vp_or_s(a, b);
}
impl VpAnd for bool {
    open spec fn vp_and_s(a: bool, b: bool) -> bool { a && b }
    open spec fn vp_or_s(a: bool, b: bool) -> bool { a || b }
    fn vp_and_x(a: bool, b: bool) -> (r: bool) { if a { b } else { false } }
    fn vp_or_x(a: bool, b: bool) -> (r: bool) { if a { true } else { b } }
}
impl VpAnd for u8 {
    open spec fn vp_and_s(a: u8, b: u8) -> u8 { a & b }
    open spec fn vp_or_s(a: u8, b: u8) -> u8 { a | b }
    fn vp_and_x(a: u8, b: u8) -> (r: u8) { a & b }
    fn vp_or_x(a: u8, b: u8) -> (r: u8) { a | b }
}
impl VpAnd for u64 {
    open spec fn vp_and_s(a: u64, b: u64) -> u64 { a & b }
    open spec fn vp_or_s(a: u64, b: u64) -> u64 { a | b }
    fn vp_and_x(a: u64, b: u64) -> (r: u64) { a & b }
    fn vp_or_x(a: u64, b: u64) -> (r: u64) { a | b }
}
impl VpAnd for usize {
    open spec fn vp_and_s(a: usize, b: usize) -> usize { a & b }
    open spec fn vp_or_s(a: usize, b: usize) -> usize { a | b }
    fn vp_and_x(a: usize, b: usize) -> (r: usize) { a & b }
    fn vp_or_x(a: usize, b: usize) -> (r: usize) { a | b }
}
pub fn vp_and<T: VpAnd>(a: T, b: T) -> (r: T) ensures r == T::vp_and_s(a, b) { T::vp_and_x(a, b) }
pub fn vp_or<T: VpAnd>(a: T, b: T) -> (r: T) ensures r == T::vp_or_s(a, b) { T::vp_or_x(a, b) }
// an assertion of the real code: proving the call proves that it never fires
pub fn vp_assert(c: bool) requires c { }
// both build modes: the value of cfg!(debug_assertions) is not known to the proof. TRUSTED (returns an arbitrary bool)
#[verifier::external_body]
pub fn vp_cfg_debug() -> bool { cfg!(debug_assertions) }
