//! What a harness uses to talk to the symbolic executor (riscv64 build) or, in the native build, to
//! the replayer: there every symbolic input is read from the file named by the first argument.
#![allow(static_mut_refs)]

#[cfg(target_arch = "riscv64")]
mod rt {
  extern "C" {
    fn __sym_u8() -> u8;
    fn __sym_choice(n: u64) -> u64;
    fn __sym_conc(v: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, p: *const u8, n: usize);
    fn __sym_reach(p: *const u8, n: usize);
    fn __sym_emit(tag: u32, v: u64);
    fn __sym_emit_bytes(p: *const u8, n: usize);
    fn __sym_panic_ok(v: u32);
    fn __sym_end() -> !;
    fn __sym_param(i: u32) -> u64;
    fn __sym_set_hash_seed(v: u64);
    fn __sym_file(p: *const u8, n: usize, b: *mut u8, cap: usize) -> i64;
  }
  #[inline(never)]
  pub fn u8() -> u8 { unsafe { __sym_u8() } }
  pub fn choice(n: usize) -> usize { unsafe { __sym_choice(n as u64) as usize } }
  pub fn conc(v: usize) -> usize { unsafe { __sym_conc(v as u64) as usize } }
  pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
  pub fn check(c: bool, msg: &str) { unsafe { __sym_check(c, msg.as_ptr(), msg.len()) } }
  pub fn reach(msg: &str) { unsafe { __sym_reach(msg.as_ptr(), msg.len()) } }
  pub fn emit(tag: u32, v: u64) { unsafe { __sym_emit(tag, v) } }
  pub fn emit_str(s: &str) { unsafe { __sym_emit_bytes(s.as_ptr(), s.len()) } }
  /// from here on a panic is an allowed outcome of the path
  pub fn panic_ok(v: bool) { unsafe { __sym_panic_ok(v as u32) } }
  pub fn end() -> ! { unsafe { __sym_end() } }
  pub fn param(i: u32) -> usize { unsafe { __sym_param(i) as usize } }
  /// seed of the iteration order of std's HashMap/HashSet from here on
  pub fn hash_seed(v: usize) { unsafe { __sym_set_hash_seed(v as u64) } }
  /// what the code under test wrote to a file
  pub fn file(path: &str) -> Option<Vec<u8>> {
    let n = unsafe { __sym_file(path.as_ptr(), path.len(), 1 as *mut u8, 0) };
    if n < 0 { return None; }
    let mut v = vec![0u8; n as usize];
    unsafe { __sym_file(path.as_ptr(), path.len(), v.as_mut_ptr(), v.len()); }
    Some(v)
  }
  pub const SYMBOLIC: bool = true;
  pub fn root() -> String { "/v".to_string() }
}

#[cfg(not(target_arch = "riscv64"))]
mod rt {
  pub static mut INPUT: Vec<u8> = Vec::new();
  pub static mut POS: usize = 0;
  pub static mut PARAMS: Vec<u64> = Vec::new();
  pub static mut ROOT: String = String::new();
  pub fn u8() -> u8 {
    unsafe {
      let v = INPUT.get(POS).copied().unwrap_or(0);
      POS += 1;
      v
    }
  }
  pub fn choice(n: usize) -> usize {
    let v = u8() as usize;
    if v >= n { println!("ASSUME-FALSE"); std::process::exit(11) }
    v
  }
  pub fn conc(v: usize) -> usize { v }
  pub fn assume(c: bool) { if !c { println!("ASSUME-FALSE"); std::process::exit(11) } }
  pub fn check(c: bool, msg: &str) { if !c { println!("CHECK-FAIL {msg}"); std::process::exit(10) } }
  pub fn reach(msg: &str) { println!("R {msg}") }
  pub fn emit(tag: u32, v: u64) { println!("E {tag}:{v}") }
  pub fn emit_str(s: &str) { println!("E 1000:{}", s.len()); for b in s.bytes() { println!("E 8:{b}") } }
  static mut PANIC_OK: bool = false;
  pub fn panic_ok(v: bool) { unsafe { PANIC_OK = v } }
  pub fn panic_is_ok() -> bool { unsafe { PANIC_OK } }
  pub fn end() -> ! { println!("END"); std::process::exit(0) }
  pub fn param(i: u32) -> usize { unsafe { PARAMS.get(i as usize).copied().unwrap_or(0) as usize } }
  pub fn hash_seed(_v: usize) {}
  pub fn file(path: &str) -> Option<Vec<u8>> { std::fs::read(path).ok() }
  pub const SYMBOLIC: bool = false;
  pub fn root() -> String { unsafe { ROOT.clone() } }
}
pub use rt::*;

/// a concrete number below n, every value explored on its own path
pub fn pick(n: usize) -> usize { if n <= 1 { 0 } else { conc(choice(n)) } }
pub fn flag() -> bool { pick(2) == 1 }
/// a symbolic member of `alpha` (at most 256 members): one symbolic byte indexes the table
#[inline(never)]
pub fn ch(alpha: &[char]) -> char { alpha[choice(alpha.len())] }
/// a string of exactly n symbolic characters
pub fn string(alpha: &[char], n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n { s.push(ch(alpha)); }
  s
}
/// a string of at most n symbolic characters
pub fn string_upto(alpha: &[char], n: usize) -> String { let k = pick(n + 1); string(alpha, k) }
pub fn one_of<'a, T: ?Sized>(v: &[&'a T]) -> &'a T { v[pick(v.len())] }
