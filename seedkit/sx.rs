//! Concrete stand-in of the symbolic interface.
pub static mut CHOICES: Vec<(&'static str, u8)> = Vec::new();
pub fn set(name: &'static str, v: u8) {
    unsafe { CHOICES.retain(|c| c.0 != name); CHOICES.push((name, v)) }
}
pub fn sym<const K: usize>(_: &str) -> [u8; K] { [0x5Au8; K] }
pub fn sym_into(b: &mut [u8], _: &str) { for x in b.iter_mut() { *x = 0x5A } }
pub fn choose(n: u8, name: &str) -> u8 {
    unsafe { CHOICES.iter().find(|c| c.0 == name).map(|c| c.1).unwrap_or(1).min(n - 1) }
}
pub fn conc(v: usize) -> usize { v }
