//! Injective stand-in for MD5: the digest of x is "md5:" followed by x itself, so two inputs have
//! equal digests exactly if they are equal.
pub mod digest {
  pub trait Digest {
    fn input(&mut self, i: &[u8]);
    fn reset(&mut self);
    fn result_str(&mut self) -> String;
    fn input_str(&mut self, s: &str) { self.input(s.as_bytes()) }
  }
}
pub mod md5 {
  #[derive(Clone, Copy)]
  pub struct Md5 { n: usize, b: [u8; 2048] }
  impl Md5 { pub fn new() -> Self { Md5 { n: 0, b: [0; 2048] } } }
  impl crate::digest::Digest for Md5 {
    fn input(&mut self, i: &[u8]) { self.b[self.n..self.n + i.len()].copy_from_slice(i); self.n += i.len(); }
    fn reset(&mut self) { self.n = 0; }
    fn result_str(&mut self) -> String { let mut s = String::from("md5:"); s.push_str(std::str::from_utf8(&self.b[..self.n]).unwrap()); s }
  }
}
