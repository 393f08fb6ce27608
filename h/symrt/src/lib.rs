//! What a harness may ask of the symbolic engine.  The `vs_*` functions are interpreted by `symx`;
//! `symrt_native` implements them for native replay of one concrete assignment.
extern "C-unwind" {
  fn vs_make_symbolic(p: *mut u8, n: usize, name: *const u8, name_len: usize);
  fn vs_assume(c: bool);
  fn vs_violation(p: *const u8, n: usize) -> !;
  fn vs_observe(p: *const u8, n: usize);
  fn vs_cover(id: u32);
  fn vs_concretize(x: u64) -> u64;
  fn vs_trace(p: *const u8, n: usize);
}
/// N unconstrained symbolic bytes.
#[inline(never)]
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
  let mut b = [0u8; N];
  unsafe { vs_make_symbolic(b.as_mut_ptr(), N, name.as_ptr(), name.len()) };
  b
}
pub fn byte(name: &str) -> u8 {
  bytes::<1>(name)[0]
}
/// A symbolic selector in 0..n, kept symbolic.
pub fn below(name: &str, n: u8) -> u8 {
  let b = byte(name);
  assume(b < n);
  b
}
/// A symbolic selector in 0..n; the engine forks one path per value.
pub fn choice(name: &str, n: u8) -> u8 {
  concretize(below(name, n) as u64) as u8
}
pub fn flag(name: &str) -> bool {
  choice(name, 2) == 1
}
pub fn assume(c: bool) {
  unsafe { vs_assume(c) }
}
pub fn concretize(x: u64) -> u64 {
  unsafe { vs_concretize(x) }
}
#[inline(never)]
pub fn violation(msg: &str) -> ! {
  unsafe { vs_violation(msg.as_ptr(), msg.len()) }
}
/// Value compared between the symbolic path and the native replay of its model.
pub fn observe(b: &[u8]) {
  unsafe { vs_observe(b.as_ptr(), b.len()) }
}
pub fn cover(id: u32) {
  unsafe { vs_cover(id) }
}
pub fn trace(s: &str) {
  unsafe { vs_trace(s.as_ptr(), s.len()) }
}
#[macro_export]
macro_rules! check {
  ($c:expr, $($m:tt)*) => { if !$c { $crate::violation($($m)*) } };
}
#[macro_export]
macro_rules! harnesses {
  ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
    $($(#[$a])* #[no_mangle] pub extern "C-unwind" fn $n() $b)*
    pub static TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
  };
}
