// DNM construction (src/dnm/mod.rs, src/dnm/parameters.rs)
use crate::common::*;
use libxml::tree::Node;
use crate::*;
use llamapun::dnm::*;
use std::collections::HashMap;
use std::sync::Arc;

fn fun_token(n: RoNode) -> String { format!("F{}", n.get_name()) }

/// rules by element name and by class name
pub fn options() -> (HashMap<String, SpecialTagsOption>, HashMap<String, SpecialTagsOption>) {
  let mut n = HashMap::new();
  n.insert("math".to_string(), SpecialTagsOption::Normalize(" ö ".to_string()));
  n.insert("cite".to_string(), SpecialTagsOption::FunctionNormalize(Arc::new(fun_token)));
  n.insert("img".to_string(), SpecialTagsOption::Skip);
  n.insert("b".to_string(), SpecialTagsOption::Enter);
  let mut c = HashMap::new();
  c.insert("norm".to_string(), SpecialTagsOption::Normalize("\nN\n".to_string()));
  c.insert("fun".to_string(), SpecialTagsOption::FunctionNormalize(Arc::new(fun_token)));
  c.insert("skip".to_string(), SpecialTagsOption::Skip);
  c.insert("enter".to_string(), SpecialTagsOption::Enter);
  (n, c)
}
#[derive(Clone, PartialEq)]
enum Rule { Enter, Skip, Token(String) }
/// the rule for an element: class rules take precedence over element-name rules
fn rule_for(n: RoNode) -> Rule {
  for c in n.get_property("class").unwrap_or_default().split(|c| c == ' ' || c == '\n') {
    match c {
      "norm" => return Rule::Token("\nN\n".to_string()),
      "fun" => return Rule::Token(fun_token(n)),
      "skip" => return Rule::Skip,
      "enter" => return Rule::Enter,
      _ => {},
    }
  }
  match n.get_name().as_str() {
    "math" => Rule::Token(" ö ".to_string()),
    "cite" => Rule::Token(fun_token(n)),
    "img" => Rule::Skip,
    _ => Rule::Enter,
  }
}
const NAMES: &[&str] = &["p", "math", "cite", "img", "b"];
const CLASSES: &[&str] = &["", "skip", "norm", "enter", "fun", "other", "other skip", "norm other", " other\nenter skip"];

/// append `k` symbolic items (text, or an element with one text inside) to `parent`
fn items(d: &Dom, parent: &mut Node, k: usize, alpha: &[char], specials: bool, deep: bool) {
  for _ in 0..k {
    match if specials { pick(3) } else { 2 } {
      0 => { d.comment(parent, "c"); continue },
      1 => {
        let t = string(alpha, 1);
        match pick(3) {
          0 => { d.cdata(parent, &t); reach("character data section") },
          k => { let mut e = d.el(parent, ["script", "style"][k - 1]); d.cdata(&mut e, &t); reach("script or style") },
        }
        continue
      },
      _ => {},
    }
    if flag() {
      parent.append_text(&string(alpha, 1)).unwrap();
    } else {
      let (n, c) = if specials { (NAMES[pick(NAMES.len())], CLASSES[pick(CLASSES.len())]) } else { ("p", "") };
      let mut e = if c.is_empty() { d.el(parent, n) } else { d.elc(parent, n, c) };
      if deep && flag() {
        let mut e2 = d.el(&mut e, "i");
        e2.append_text(&string(alpha, 1)).unwrap();
      } else if flag() {
        e.append_text(&string(alpha, 1)).unwrap();
      }
    }
  }
}

/// the documented reading of a document: what the plaintext is, and where each part comes from
struct Reading { text: Vec<char>, back: Vec<(RoNode, i32)>, ranges: Vec<(RoNode, usize, usize)>, white: bool, normalize: bool, wrap: bool }
impl Reading {
  fn space(&mut self, n: RoNode) { if !self.white || !self.normalize { self.text.push(' '); self.back.push((n, -1)); self.white = true; } }
  fn node(&mut self, n: RoNode, map: &dyn Fn(&str) -> String) {
    let s = self.text.len();
    if is_text(n) {
      // each character is read as one or several ones, which all come from it
      let content = n.get_content();
      let from: Vec<i32> = content.chars().enumerate().flat_map(|(i, c)| vec![i as i32; map(&c.to_string()).chars().count()]).collect();
      if from.len() != content.chars().count() { reach("character read as several or none") }
      for (m, at) in map(&content).chars().zip(from) {
        if self.normalize {
          if m.is_whitespace() { if !self.white { self.text.push(' '); self.back.push((n, at)); self.white = true; } } else { self.text.push(m); self.back.push((n, at)); self.white = false; }
        } else {
          self.text.push(m);
          self.back.push((n, at));
        }
      }
    } else {
      match rule_for(n) {
        Rule::Skip => reach("skipped element"),
        Rule::Token(t) => {
          reach("element replaced by a token");
          if self.wrap { self.space(n); }
          for c in t.chars() { self.text.push(c); self.back.push((n, -1)) }
          self.white = false;
          if self.wrap { self.space(n); }
        },
        Rule::Enter => for c in n.get_child_nodes() { self.node(c, map) },
      }
    }
    self.ranges.push((n, s, self.text.len()));
  }
}
fn ascii(c: char) -> String { unidecode::unidecode_char(c).to_string() }
fn same_s(s: &str) -> String { s.to_string() }
fn lower_s(s: &str) -> String { s.to_lowercase() }
fn ascii_s(s: &str) -> String { s.chars().map(ascii).collect() }
fn ascii_lower_s(s: &str) -> String { ascii_s(s).to_lowercase() }

/// the structural index invariants of any DNM
fn index_invariants(dnm: &DNM, root: RoNode) {
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  check(dnm.byte_offsets.len() == chars.len() + 1, "one byte offset per character and one for the end");
  let mut b = 0;
  for (i, c) in chars.iter().enumerate() {
    check(dnm.byte_offsets[i] == b, "byte_offsets[i] is where character i starts");
    b += c.len_utf8();
  }
  check(dnm.byte_offsets[chars.len()] == b, "the last byte offset is the length");
  let back = dnm.parameters.support_back_mapping;
  check(dnm.back_map.len() == if back { chars.len() } else { 0 }, "one back mapping entry per character");
  let r = dnm.get_range().unwrap();
  check(r.start == 0 && r.end == chars.len(), "the root's range is the whole text");
  check(r.get_plaintext() == dnm.plaintext && dnm.get_plaintext() == dnm.plaintext, "and its text the plaintext");
  // ranges of children tile the range of an entered element, in document order
  let mut nodes = Vec::new();
  all_nodes(root, &mut nodes);
  for n in &nodes {
    if let Ok(r) = dnm.get_range_of_node(*n) {
      check(r.start <= r.end && r.end <= chars.len(), "node ranges lie within the text");
      let kids = n.get_child_nodes();
      let mapped = kids.iter().filter(|k| dnm.get_range_of_node(**k).is_ok()).count();
      check(mapped == 0 || mapped == kids.len(), "either all children of a node are mapped or none");
      if mapped > 0 {
        let mut at = r.start;
        for k in &kids {
          let kr = dnm.get_range_of_node(*k).unwrap();
          check(kr.start == at, "children tile their parent's range");
          at = kr.end;
        }
        check(at == r.end, "children tile their parent's range to its end");
      }
    }
  }
  if back {
    for i in 0..chars.len() {
      let (n, off) = dnm.back_map[i];
      let nr = dnm.get_range_of_node(n);
      check(nr.is_ok(), "a character maps back to a mapped node");
      let nr = nr.unwrap();
      check(nr.start <= i && i < nr.end, "a character maps back to a node whose range contains it");
      let r = DNMRange { start: i, end: i + 1, dnm };
      check(r.get_node() == n, "get_node is the back mapping of the first character");
      if off >= 0 {
        check(is_text(n), "an offset into a node is an offset into a text node");
        let src = n.get_content().chars().nth(off as usize);
        check(src.is_some(), "the offset lies within the text node");
        let src = src.unwrap();
        let mut want = if dnm.parameters.normalize_unicode { ascii(src) } else { src.to_string() };
        if dnm.parameters.convert_to_lowercase { want = want.to_lowercase(); }
        let c = chars[i];
        let ok = want.contains(c) || (c == 'ς' && want.contains('σ')) || (dnm.parameters.normalize_white_spaces && c == ' ' && want.chars().any(|w| w.is_whitespace()));
        check(ok, "a character maps back to the source character it was made from");
        if i > nr.start && dnm.back_map[i - 1].0 == n { check(dnm.back_map[i - 1].1 <= off, "offsets never run backwards within a node"); }
        reach("character of a text node");
      } else {
        check(!is_text(n), "offset -1 stands for a whole element");
        reach("character of a token");
      }
    }
  }
}

/// params: items, specials(0/1), deep(0/1), alphabet, transformations(0/1), what is checked (0 index, 1 reading),
/// stemming (0 never, 1 yes, 2 yes, behind p7 texts)
pub fn create() {
  let k = param(0);
  let (d, mut root) = Dom::new("html");
  let alpha = match param(3) { 0 => &TEXT[..], 1 => &['a', ' ', '\n', '\u{3000}', 'é'][..], 3 => &['İ', 'Σ', 'A', ' ', '½', '中'][..], _ => &['B', ' ', '中'][..] };
  let alpha = if param(6) > 0 { &['s', 'S', 'ş', 'a', ' ', '\n', 'İ'][..] } else { alpha };
  for _ in 0..param(7) { d.el(&mut root, "p").append_text("glass S\n").unwrap(); }
  items(&d, &mut root, k, alpha, param(1) == 1, param(2) == 1);
  let (n, c) = options();
  // 1: once, 2: full, 3: both, which is full
  let stem = if param(6) > 0 { 1 + pick(3) } else { 0 };
  let tr = if param(4) == 1 { pick(4) } else { 0 };
  let p = DNMParameters {
    special_tag_name_options: n,
    special_tag_class_options: c,
    normalize_white_spaces: flag(),
    wrap_tokens: param(1) == 1 && flag(),
    support_back_mapping: flag(),
    convert_to_lowercase: tr & 1 == 1,
    normalize_unicode: tr & 2 == 2,
    stem_words_once: stem & 1 == 1,
    stem_words_full: stem & 2 == 2,
    ..DNMParameters::default()
  };
  let (norm, wrap) = (p.normalize_white_spaces, p.wrap_tokens);
  let root = d.root();
  // stemming does not go with back mapping
  panic_ok(stem > 0 && p.support_back_mapping);
  let dnm = DNM::new(root, p);
  panic_ok(false);
  emit_str(&dnm.plaintext);
  if param(5) == 0 { index_invariants(&dnm, root); }
  let mut want = Reading { text: vec![], back: vec![], ranges: vec![], white: true, normalize: norm, wrap };
  let map: &dyn Fn(&str) -> String = match tr { 0 => &same_s, 1 => &lower_s, 2 => &ascii_s, _ => &ascii_lower_s };
  let stemmed = |s: &str| {
    let s = if tr & 2 == 2 { ascii_s(s) } else { s.to_string() };
    let t = match stem { 1 => rustmorpha::stem(&s), _ => rustmorpha::full_stem(&s) };
    if t != s { reach("stemmed text") }
    if tr & 1 == 1 { t.to_lowercase() } else { t }
  };
  want.node(root, if stem > 0 { &stemmed } else { map });
  if stem > 0 && dnm.parameters.support_back_mapping {
    check(dnm.back_map.len() == dnm.plaintext.chars().count(), "if stemming comes with a back mapping, it covers the text");
    for (i, (n, _)) in dnm.back_map.iter().enumerate() {
      check(want.ranges.iter().any(|w| w.0 == *n && w.1 <= i && i < w.2), "and maps each character into its node");
    }
  }
  if param(5) == 0 {
    if dnm.parameters.support_back_mapping && dnm.back_map.len() == want.back.len() {
      for (i, w) in want.back.iter().enumerate() { check(dnm.back_map[i] == *w, "each character maps back to exactly the node and character it came from"); }
    }
    return;
  }
  let text: String = want.text.iter().collect();
  check(dnm.plaintext == text, "the plaintext is the documented reading of the document");
  check(dnm.node_map.len() == want.ranges.len(), "exactly the nodes that were read have a range");
  for (n, s, e) in &want.ranges {
    match dnm.get_range_of_node(*n) {
      Ok(r) => check(r.start == *s && r.end == *e, "the range of a node covers what it contributed"),
      Err(_) => check(false, "every node that was read has a range"),
    }
  }
}

/// the default parameters: whitespace merged, tokens as they are, back mapping, nothing else
pub fn defaults() {
  let (d, mut root) = Dom::new("html");
  items(&d, &mut root, param(0), &['A', ' ', 'é', '\n'], true, false);
  let root = d.root();
  let rules = flag();
  let mut p = DNMParameters::default();
  if rules { let (n, c) = options(); p.special_tag_name_options = n; p.special_tag_class_options = c; }
  else { check(p.special_tag_name_options.is_empty() && p.special_tag_class_options.is_empty(), "no rules by default"); }
  let dnm = DNM::new(root, p);
  emit_str(&dnm.plaintext);
  if rules {
    let mut want = Reading { text: vec![], back: vec![], ranges: vec![], white: true, normalize: true, wrap: false };
    want.node(root, &same_s);
    check(dnm.plaintext == want.text.iter().collect::<String>(), "by default, texts are joined with merged whitespace and tokens as they are");
    check(dnm.back_map == want.back, "by default, there is a back mapping");
  } else {
    fn all(n: RoNode, t: &mut String) { if is_text(n) { t.push_str(&n.get_content()) } else { for c in n.get_child_nodes() { all(c, t) } } }
    let mut text = String::new();
    all(root, &mut text);
    let mut merged = String::new();
    let mut white = true;
    for c in text.chars() { if c.is_whitespace() { if !white { merged.push(' ') } white = true; } else { merged.push(c); white = false; } }
    check(dnm.plaintext == merged, "by default, all text is read, with merged whitespace");
  }
}

/// rules apply to the very names and classes they are given for.  params: 0 classes, 1 names
pub fn names() {
  let (d, mut root) = Dom::new("html");
  root.append_text("a").unwrap();
  let near = ch(&['s', 'S', ',', '.', '-', '_', ':', '1', 'é', '*']);
  let mut e = if param(0) == 0 {
    let c = one_of(&["skip", "norm", "Skip", "NORM", "ski", "orm"]);
    let c = match pick(4) { 0 => format!("{}{}", c, near), 1 => format!("{}{}", near, c), 2 => format!("{}  {}", near, c), _ => format!("{}{}{}", c, near, c) };
    d.elc(&mut root, "p", &c)
  } else {
    let n = one_of(&["math", "Math", "MATH", "maths", "mat", "amath", "math-x", "m:math", "img", "IMG", "cite", "Cite"]);
    if flag() { d.elc(&mut root, n, &near.to_string()) } else { d.el(&mut root, n) }
  };
  e.append_text("b").unwrap();
  root.append_text("c").unwrap();
  let (n, c) = options();
  let root = d.root();
  let dnm = DNM::new(root, DNMParameters { special_tag_name_options: n, special_tag_class_options: c, ..DNMParameters::default() });
  let mut want = Reading { text: vec![], back: vec![], ranges: vec![], white: true, normalize: true, wrap: false };
  want.node(root, &same_s);
  emit_str(&dnm.plaintext);
  if want.text.len() == 3 && want.text[1] == 'b' { reach("an unknown class or name, close to one with a rule") } else { reach("a class or name with a rule") }
  check(dnm.plaintext == want.text.iter().collect::<String>(), "rules apply to exactly the elements of their name or class");
  check(dnm.back_map == want.back, "and the text maps back to them");
}

/// a long document: `p0` characters in front, in one text or in many elements, then symbolic items
pub fn long() {
  let (d, mut root) = Dom::new("html");
  let many = flag();
  let body = "lorem ipsum é ".chars().cycle().take(param(0)).collect::<Vec<char>>();
  if many { for c in body.chunks(5) { let mut p = d.el(&mut root, "p"); p.append_text(&c.iter().collect::<String>()).unwrap(); } }
  else { root.append_text(&body.iter().collect::<String>()).unwrap(); let _ = d.el(&mut root, "p"); }
  items(&d, &mut root, param(1), &['a', ' ', 'é', '中'], true, false);
  let (n, c) = options();
  let root = d.root();
  let norm = flag();
  let wrap = flag();
  let p = DNMParameters { special_tag_name_options: n, special_tag_class_options: c, normalize_white_spaces: norm, wrap_tokens: wrap, ..DNMParameters::default() };
  let dnm = DNM::new(root, p);
  let mut want = Reading { text: vec![], back: vec![], ranges: vec![], white: true, normalize: norm, wrap };
  want.node(root, &same_s);
  emit(1, dnm.plaintext.len() as u64);
  if param(2) == 0 {
    index_invariants(&dnm, root);
    check(dnm.back_map == want.back, "each character maps back to exactly the node and character it came from");
    reach("long document");
    return;
  }
  check(dnm.plaintext == want.text.iter().collect::<String>(), "the plaintext is the documented reading of the document");
  check(dnm.node_map.len() == want.ranges.len(), "exactly the nodes that were read have a range");
  for (n, s, e) in &want.ranges { check(dnm.get_range_of_node(*n).map_or(false, |r| r.start == *s && r.end == *e), "the range of a node covers what it contributed"); }
  reach("long document");
}

/// the plaintext is a function of document and parameters: two constructions agree whatever the
/// iteration order of hash sets and maps
pub fn order() {
  let (d, mut root) = Dom::new("html");
  const CL: &[&str] = &["norm", "skip", "enter", "fun"];
  let a = CL[pick(4)];
  let b = CL[pick(4)];
  let class = format!("{} x {}", a, b);
  let name = NAMES[pick(NAMES.len())];
  let mut e = d.elc(&mut root, name, &class);
  e.append_text("abc").unwrap();
  let root = d.root();
  let mut first: Option<String> = None;
  let rounds = if SYMBOLIC { 6 } else { 200 };
  for s in 0..rounds {
    hash_seed(s * 7 + 1);
    let (n, c) = options();
    let dnm = DNM::new(root, DNMParameters { special_tag_name_options: n, special_tag_class_options: c, ..DNMParameters::default() });
    match &first {
      None => first = Some(dnm.plaintext.clone()),
      Some(f) => check(*f == dnm.plaintext, "two readings of one document agree"),
    }
  }
  emit(1, 1);
}

/// from_str wraps a text as a single paragraph
pub fn from_str() {
  let t = string_upto(&TEXT[..], param(0));
  let norm = flag();
  let (_doc, dnm) = DNM::from_str(&t, Some(DNMParameters { normalize_white_spaces: norm, ..DNMParameters::default() })).unwrap();
  let mut want = String::new();
  let mut white = true;
  for c in t.chars() {
    if norm { if c.is_whitespace() { if !white { want.push(' '); white = true; } } else { want.push(c); white = false; } } else { want.push(c); }
  }
  emit_str(&dnm.plaintext);
  if param(1) == 0 { index_invariants(&dnm, dnm.root_node) } else { check(dnm.plaintext == want, "from_str reads the given text") }
}
