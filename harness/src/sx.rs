//! Interface to the symbolic executor (or to the native replay, which provides the same symbols).
extern "C" {
    fn sx_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn sx_assume(c: bool);
    fn sx_check(c: bool, m: *const u8, ml: usize);
    fn sx_cover(m: *const u8, ml: usize);
    fn sx_end();
    fn sx_concretize(v: u64) -> u64;
    fn sx_param(i: u64) -> u64;
}

/// Fresh arbitrary bytes.
pub fn sym<const K: usize>(name: &str) -> [u8; K] {
    let mut b = [0u8; K];
    unsafe { sx_sym(b.as_mut_ptr(), K, name.as_ptr(), name.len()) };
    b
}
#[inline(never)]
pub fn sym_into(b: &mut [u8], name: &str) {
    unsafe { sx_sym(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) };
}
#[inline(never)]
pub fn sym_u8(name: &str) -> u8 {
    sym::<1>(name)[0]
}
#[inline(never)]
pub fn sym_bool(name: &str) -> bool {
    let v = sym::<1>(name)[0];
    assume(v < 2);
    v == 1
}
#[inline(never)]
pub fn sym_u16(name: &str) -> u16 {
    u16::from_le_bytes(sym::<2>(name))
}
#[inline(never)]
pub fn sym_u32(name: &str) -> u32 {
    u32::from_le_bytes(sym::<4>(name))
}
#[inline(never)]
pub fn sym_u64(name: &str) -> u64 {
    u64::from_le_bytes(sym::<8>(name))
}
/// Arbitrary value below `n`, one path per value.
#[inline(never)]
pub fn choose(n: u8, name: &str) -> u8 {
    let v = sym::<1>(name)[0];
    assume(v < n);
    unsafe { sx_concretize(v as u64) as u8 }
}
#[inline(never)]
pub fn conc(v: usize) -> usize {
    unsafe { sx_concretize(v as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &str) {
    unsafe { sx_check(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(m: &str) {
    unsafe { sx_cover(m.as_ptr(), m.len()) }
}
pub fn end() {
    unsafe { sx_end() }
}
pub fn param(i: u64) -> u64 {
    unsafe { sx_param(i) }
}
/// From here on a load through a symbolic address is followed once per address.
pub fn each_address() {
    unsafe { sx_param(0xadd0) };
}
