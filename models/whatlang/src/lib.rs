//! Model of whatlang: the verdict is whatever the harness chose (an arbitrary classifier).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Lang { Eng, Deu, Fra, Rus }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Script { Latin, Cyrillic }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Info { lang: Lang, script: Script, confidence: f64 }
impl Info {
  pub fn lang(&self) -> Lang { self.lang }
  pub fn script(&self) -> Script { self.script }
  pub fn confidence(&self) -> f64 { self.confidence }
  pub fn is_reliable(&self) -> bool { self.confidence > 0.9 }
}
static mut VERDICT: Option<Info> = None;
pub fn set_verdict(lang: usize, script: usize, confidence: f64) {
  let l = [Lang::Eng, Lang::Deu, Lang::Fra, Lang::Rus][lang];
  let s = [Script::Latin, Script::Cyrillic][script];
  unsafe { VERDICT = Some(Info { lang: l, script: s, confidence }); }
}
pub fn set_none() { unsafe { VERDICT = None; } }
static mut SEEN: Vec<String> = Vec::new();
/// the texts judged so far
pub fn seen() -> Vec<String> { unsafe { let s = std::ptr::addr_of!(SEEN); (*s).clone() } }
pub fn detect(t: &str) -> Option<Info> { unsafe { let s = std::ptr::addr_of_mut!(SEEN); (*s).push(t.to_string()); VERDICT } }
