use crate::*;
use llamapun::ngrams::Ngrams;
pub fn smoke() {
  let n = param(0);
  let mut ws = Vec::new();
  for _ in 0..n { ws.push(["a", "b", "c"][pick(3)]); }
  let mut ng = Ngrams::default();
  ng.record_words(ws.clone());
  let c = ng.get("a");
  check(c == ws.iter().filter(|w| **w == "a").count(), "count of a");
  emit(1, c as u64);
}
pub fn smoke_dnm() {
  use libxml::tree::*;
  use llamapun::dnm::*;
  let n = param(0);
  let mut doc = Document::new().unwrap();
  let mut root = Node::new("html", None, &doc).unwrap();
  doc.set_root_element(&root);
  let s = string(&['a', ' ', 'é', '\u{3000}', '\n'], n);
  root.append_text(&s).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
  emit_str(&dnm.plaintext);
  check(!dnm.plaintext.contains("  "), "no two spaces");
  check(dnm.plaintext.len() <= s.len(), "shorter");
}
