// Canonical forms and hashes, rebuilt AMS paragraphs, math lexemes, the llamapun preset
// (src/dnm/c14n.rs, src/dnm/node.rs, src/dnm/parameters.rs)
use crate::common::*;
use crate::*;
use crypto::digest::Digest;
use crypto::md5::Md5;
use libxml::tree::Node;
use libxml::tree::NodeType;
use libxml::xpath::Context;
use llamapun::dnm::node::lexematize_math;
use llamapun::dnm::*;

const NAMES: &[&str] = &["p", "semantics", "annotation", "annotation-xml", "mi"];
const CLASSES: &[&str] = &["", "b a", "a b", " b  a c ", "a a", "B a", " ", "b\na", "é B\ta", "a,b aa-b a"];

/// the canonical form by its definition
fn canon(dnm: &DNM, n: RoNode, out: &mut String) {
  match n.get_type() {
    Some(_) if is_text(n) => if let Ok(r) = dnm.get_range_of_node(n) {
      let t: String = dnm.plaintext.chars().skip(r.start).take(r.end - r.start).collect();
      if t.chars().any(|c| !c.is_whitespace()) { out.push_str(&t); reach("text"); } else { reach("blank text"); }
    },
    Some(NodeType::ElementNode) => {
      let name = n.get_name();
      if name == "annotation" || name == "annotation-xml" { reach("annotation left out"); return; }
      let wrap = name != "semantics";
      if wrap {
        out.push('<');
        out.push_str(&name);
        let at = n.get_property("class").unwrap_or_default();
        let mut cl: Vec<String> = Vec::new();
        for c in at.split(&[' ', '\n', '\t'][..]) { if !c.is_empty() { cl.push(c.to_string()); } }
        cl.sort();
        if !cl.is_empty() { out.push_str(&format!(" class=\"{}\"", cl.join(" "))); reach("classes"); }
        out.push('>');
      } else { reach("semantics unwrapped"); }
      for c in n.get_child_nodes() { canon(dnm, c, out); }
      if wrap { out.push_str("</"); out.push_str(&name); out.push('>'); }
    },
    _ => reach("comment left out"),
  }
}
fn md5(s: &str) -> String { let mut h = Md5::new(); h.input_str(s); h.result_str() }

fn element(d: &Dom, parent: &mut Node, alpha: &[char], rest: usize) {
  let (n, c) = if param(3) == 0 { (NAMES[pick(NAMES.len())], CLASSES[pick(CLASSES.len())]) } else { (NAMES[pick(3)], CLASSES[pick(2)]) };
  let mut e = d.el(parent, n);
  if !c.is_empty() { e.set_attribute("class", c).unwrap(); }
  e.set_attribute("id", "x1").unwrap();
  if rest > 0 { part(d, &mut e, alpha, rest - 1); }
}
fn part(d: &Dom, parent: &mut Node, alpha: &[char], rest: usize) {
  match pick(5) {
    4 => {
      let t = string(alpha, 1);
      if flag() { d.cdata(parent, &t); reach("character data section") } else { let mut e = d.el(parent, "script"); d.cdata(&mut e, &t); reach("script") }
    },
    0 => { parent.append_text(&string(alpha, 1)).unwrap(); },
    1 => { d.comment(parent, "note"); },
    2 => { parent.append_text(&string(alpha, 2)).unwrap(); },
    _ => element(d, parent, alpha, rest),
  }
}

/// params: parts, depth, raw whitespace
pub fn canonical() {
  let (d, mut root) = Dom::new("div");
  for _ in 0..param(0) { part(&d, &mut root, &['a', ' ', if param(4) == 0 { '中' } else { 'É' }], param(1)); }
  let root = d.root();
  let mut ps = DNMParameters { normalize_white_spaces: param(2) == 0, ..DNMParameters::default() };
  if param(4) == 1 {
    // texts as they are read: lowercased, transliterated, replaced and skipped elements without their text
    ps.convert_to_lowercase = true;
    ps.normalize_unicode = true;
    ps.wrap_tokens = true;
    ps.special_tag_name_options.insert("mi".to_string(), SpecialTagsOption::Normalize("T".to_string()));
    ps.special_tag_class_options.insert("a".to_string(), SpecialTagsOption::Skip);
  }
  let dnm = DNM::new(root, ps);
  let mut want = String::new();
  canon(&dnm, root, &mut want);
  let got = dnm.to_c14n_basic();
  emit_str(&got);
  check(got == want, "the canonical form lists names, sorted classes and text only");
  let h = dnm.to_hash_basic();
  check(h == md5(&want), "the hash is the MD5 sum of the canonical form");
  let mut nodes = Vec::new();
  all_nodes(root, &mut nodes);
  for n in nodes {
    let mut w = String::new();
    canon(&dnm, n, &mut w);
    let g = dnm.node_c14n_basic(n);
    check(g == w, "the canonical form of a node is that of its subtree");
    check(dnm.node_hash_basic(n) == md5(&w), "the hash of a node is the MD5 sum of its canonical form");
  }
  check(dnm.to_hash_basic() == h, "hashing again gives the same hash");
}

/// class order, ids, comments, annotations, semantics wrappers and blank text do not matter
pub fn invariant() {
  let make = |v: usize| {
    let (d, mut root) = Dom::new("div");
    let mut p = d.elc(&mut root, "p", if v & 1 == 0 { "a b" } else { "b a" });
    if v & 2 != 0 { d.comment(&mut p, "x"); }
    if v & 4 != 0 { p.set_attribute("id", "i").unwrap(); p.set_attribute("style", "y").unwrap(); }
    let mut m = if v & 8 != 0 { d.el(&mut p, "semantics") } else { p };
    let mut i = d.el(&mut m, "mi");
    i.append_text("ab").unwrap();
    if v & 16 != 0 { let mut a = d.el(&mut m, "annotation"); a.append_text("zzz").unwrap(); }
    if v & 32 != 0 { m.append_text(" ").unwrap(); }
    let root = d.root();
    let dnm = DNM::new(root, DNMParameters::default());
    let r = (dnm.to_c14n_basic(), dnm.to_hash_basic());
    r
  };
  let v = pick(64);
  let (a, ha) = make(0);
  let (b, hb) = make(v);
  emit_str(&b);
  check(a == b && ha == hb, "markup without linguistic content does not change form or hash");
}

/// rebuilding of a normalized paragraph.  params: words per line, lines
pub fn rebuild() {
  let lines = param(1);
  // build the lazy regular expressions once, before anything is symbolic
  let _ = DNM::from_ams_paragraph_str("a NUM", None).unwrap();
  let mut text = String::new();
  let mut want: Vec<String> = Vec::new();
  for l in 0..lines {
    let n = pick(param(0) + 1);
    let mut line = String::new();
    let mut w = String::new();
    let mut math = false;
    for i in 0..n {
      // a word, a number lexeme or a near miss, an operator lexeme or a near miss
      let (x, lex) = match pick(3) {
        0 => (format!("{}or", ch(&['w', 'W', 'é', '9', 'x', '(', 'a', 'z'])), false),
        1 => { let c = ch(&['M', 'N', 'm', 'é', '-']); (format!("NU{}", c), c == 'M') },
        _ => { let c = ch(&['_', '-', 'a', '.']); let k = if param(2) == 0 { 0 } else { pick(4) }; (format!("{}{}{}", if k == 1 { "é" } else { "R" }, c, ["b", "b", "b_c", "é_1.5"][k]), c == '_' || k > 1) },
      };
      if i > 0 { line.push(' '); }
      line.push_str(&x);
      if lex {
        if !math { w.push_str("mathformula "); } else { reach("run of lexemes"); }
      } else {
        w.push_str(&x);
        if i + 1 < n { w.push(' '); }
      }
      math = lex;
    }
    if l + 1 < lines || flag() { text.push_str(&line); text.push('\n'); } else { text.push_str(&line); }
    if !line.is_empty() {
      let mut cs = w.chars();
      let f = cs.next().unwrap();
      want.push(format!("{}{}", f.to_ascii_uppercase(), cs.as_str()));
    } else { reach("empty line"); }
  }
  let want = want.join(" . ");
  let (_d, dnm) = DNM::from_ams_paragraph_str(&text, Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })).unwrap();
  emit_str(&text);
  if want.contains(" . ") { reach("several lines"); }
  check(dnm.plaintext == want, "lines become sentences, with runs of math lexemes as one formula");
}

/// build the lazy regular expressions once, before anything is symbolic
fn warm() {
  let (d, mut root) = Dom::new("math");
  let mut a = d.el(&mut root, "annotation");
  a.set_attribute("encoding", "application/x-llamapun").unwrap();
  a.append_text("ID:end x").unwrap();
  let mut ctx = Context::new(&d.doc).unwrap();
  let _ = lexematize_math(d.root(), &mut ctx);
}

/// one lexeme: what the annotation has, and what is to come out
fn lexeme(alpha: &[char], n: usize) -> (String, String) {
  let k = pick(if param(3) == 0 { 7 } else { 14 });
  let body = string(alpha, n);
  if k < 4 {
    let (name, short) = [("NUMBER", "NUM"), ("ARRAY", "ARRAY"), ("ATOM", "ATOM"), ("SUPERSCRIPTOP", "SUPERSCRIPTOP")][k];
    // with contents of either form, of several parts, or without any
    let raw = if param(3) == 0 { format!("{}{}{}", name, if k == 1 { "-" } else { ":" }, body) } else { match pick(4) { 0 => format!("{}:{}", name, body), 1 => format!("{}-{}", name, body), 2 => format!("{}:{}-b:c", name, body), _ => name.to_string() } };
    return (raw, short.to_string());
  }
  // near misses: the generalized names inside of a lexeme
  let role = ["ITALIC", "ID", "ADDOP", "ID:NUM", "ITALIC-ATOM", "POSTSUPERSCRIPTOP", "AN-ARRAY", "number", "SUPERSCRIPT", "bare"][k - 4];
  if k > 6 { reach("near miss of a general lexeme"); }
  let raw = if role == "bare" { if body.is_empty() { "x".to_string() } else { body } } else { format!("{}:{}", role, body) };
  let out = raw.chars().map(|c| if c == ':' || c == '-' { '_' } else { c }).collect();
  (raw, out)
}
/// params: lexemes, characters in each body
pub fn lexemes() {
  warm();
  let wide: Vec<char> = WIDE.iter().copied().chain(['+', '/', '<', ':', 'N', 'α']).filter(|c| !c.is_whitespace() && *c != '\0').collect();
  let alpha: &[char] = if param(2) == 0 { &['a', 'N', '1', '-', 'é'] } else if param(2) == 2 { &wide } else { &['z', '-'] };
  let (d, mut root) = Dom::new("math");
  let mut text = String::new();
  let mut want: Vec<String> = Vec::new();
  for i in 0..param(0) {
    let (raw, out) = lexeme(alpha, param(1));
    if i > 0 { text.push_str(if flag() { " " } else { "\n  " }); }
    text.push_str(&raw);
    want.push(out);
  }
  let mut a = d.el(&mut root, "annotation");
  a.set_attribute("encoding", "application/x-llamapun").unwrap();
  a.append_text(&text).unwrap();
  let mut ctx = Context::new(&d.doc).unwrap();
  emit_str(&text);
  let got = lexematize_math(d.root(), &mut ctx);
  emit_str(&got);
  let want = want.join(" ");
  check(got == want, "lexemes are generalized word by word");
}
/// starts and ends of groups are set apart even if they are written without a blank
pub fn lexeme_marks() {
  warm();
  const ROLES: &[&str] = &["OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT"];
  let (d, mut root) = Dom::new("math");
  let mut a = d.el(&mut root, "annotation");
  a.set_attribute("encoding", "application/x-llamapun").unwrap();
  let r = ROLES[pick(ROLES.len())];
  let gap = one_of(&["", " ", "\n"]);
  let (text, want) = match pick(5) {
    0 => (format!("POSTFIX:end{}{}:end", gap, r), format!("POSTFIX_end {}_end", r)),
    1 => (format!("{}:start{}ITALIC:x", r, gap), format!("{}_start ITALIC_x", r)),
    2 => (format!("ITALIC:x{}{}:end", gap, r), format!("ITALIC_x {}_end", r)),
    3 => (format!("{}:end{}NUMBER:1 x", r, gap), format!("{}_end NUM x", r)),
    _ => (format!("{}:start{}{}:start{}b{}{}:end{}ATOM:q", r, gap, r, gap, gap, r, gap), format!("{}_start {}_start b {}_end ATOM", r, r, r)),
  };
  a.append_text(&text).unwrap();
  emit_str(&text);
  if gap.is_empty() { reach("fused lexemes"); }
  let mut ctx = Context::new(&d.doc).unwrap();
  check(lexematize_math(d.root(), &mut ctx) == want, "starts and ends of groups are lexemes of their own");
}
/// which annotations count: those below the node, with the right encoding, in document order
pub fn lexeme_sources() {
  warm();
  let (d, mut root) = Dom::new("div");
  let mut want: Vec<&str> = Vec::new();
  let mut m1 = d.el(&mut root, "math");
  let mut m2 = d.el(&mut root, "math");
  const T: &[&str] = &["ITALIC:x", "NUM:1", "", "  "];
  const O: &[&str] = &["ITALIC_x", "NUM", "", ""];
  for i in 0..param(0) {
    let inner = pick(3);
    let mut holder = match inner { 0 => d.el(&mut m1, "semantics"), 1 => d.el(&mut m2, "semantics"), _ => { let mut s = d.el(&mut m1, "semantics"); d.el(&mut s, "mrow") } };
    let name = if flag() { "annotation" } else { "annotation-xml" };
    let enc = pick(3);
    let k = pick(T.len());
    let mut a = d.el(&mut holder, name);
    match enc { 0 => a.set_attribute("encoding", "application/x-llamapun").unwrap(), 1 => a.set_attribute("encoding", "application/x-tex").unwrap(), _ => {} }
    if !T[k].is_empty() { a.append_text(T[k]).unwrap(); }
    if inner != 1 && name == "annotation" && enc == 0 { if O[k].is_empty() { reach("blank annotation") } else { want.push(O[k]) } } else { reach("annotation that does not count"); }
    emit(i as u32, k as u64);
  }
  let n = d.root().get_first_child().unwrap();
  let mut ctx = Context::new(&d.doc).unwrap();
  let got = lexematize_math(n, &mut ctx);
  emit_str(&got);
  let joined = want.join(" ");
  if joined.is_empty() { reach("no lexemes"); check(got == "mathformula", "without lexemes the generic word stands in"); }
  else { check(got == joined, "lexemes of all annotations of the node, in document order"); }
}

/// the preset used for arXiv documents.  params: elements, alphabet, nested, fewer names
pub fn preset() {
  let (d, mut root) = Dom::new("html");
  let mut want = String::new();
  // a blank of a token is pushed always, as blanks are kept
  let alpha: &[char] = if param(1) == 0 { &['a', 'B', ' ', '\n', 'é', 'ß', '\u{a0}'] } else { &['x', ' '] };
  for _ in 0..param(0) {
    let t = string(alpha, 1);
    root.append_text(&t).unwrap();
    want.push_str(&unidecode::unidecode(&t));
    want.push_str(&preset_element(&d, &mut root, param(2)));
  }
  let root = d.root();
  let dnm = DNM::new(root, DNMParameters::llamapun_normalization());
  emit_str(&dnm.plaintext);
  check(dnm.plaintext == want, "the preset replaces formulas, citations and references, and drops what is not running text");
  check(dnm.back_map.len() == want.chars().count(), "the preset keeps the back mapping");
}
fn preset_element(d: &Dom, root: &mut Node, nested: usize) -> String {
  const N: &[&str] = &["p", "math", "cite", "img", "table", "head", "footer", "span", "figure", "header", "a", "tr", "sup"];
  const C: &[&str] = &["", "ltx_equation", "ltx_equationgroup", "ltx_ref", "ltx_authors", "ltx_TOC", "ltx_note_mark", "ltx_note_outer", "ltx_bibliography", "ltx_tag_figure", "ltx_tag_table", "ltx_Math", "x ltx_ref", "ltx_para ltx_TOC",
    "ltx_note", "ltx_tag", "ltx_tag_item", "ltx_title", "ltx_cite", "ltx_abstract", "ltx_refs", "ltx_author", "ltx_figure", "ltx_table", "ltx_REF", "ltx_bibitem"];
  let (n, c) = if nested == 0 { (N[pick(if param(3) == 0 { N.len() } else { 8 })], C[pick(if param(3) == 0 { C.len() } else { 14 })]) } else { (["p", "math", "table", "span"][pick(4)], ["", "ltx_equation", "ltx_ref", "ltx_TOC"][pick(4)]) };
  let mut e = if c.is_empty() { d.el(root, n) } else { d.elc(root, n, c) };
  e.append_text("É").unwrap();
  let mut inner = String::from("E");
  if nested > 0 {
    inner.push_str(&preset_element(d, &mut e, nested - 1));
    e.append_text("ß").unwrap();
    inner.push_str("ss");
    reach("nested elements");
  }
  let class = c.split(' ').last().unwrap();
  match (class, n) {
    ("ltx_equation", _) | ("ltx_equationgroup", _) => " \nmathformula\n ".to_string(),
    ("ltx_ref", _) => " REF ".to_string(),
    ("ltx_authors", _) | ("ltx_TOC", _) | ("ltx_note_mark", _) | ("ltx_note_outer", _) | ("ltx_bibliography", _) | ("ltx_tag_figure", _) | ("ltx_tag_table", _) => { reach("left out by class"); String::new() },
    (_, "math") => " mathformula ".to_string(),
    (_, "cite") => " CitationElement ".to_string(),
    (_, "img") | (_, "table") | (_, "head") | (_, "footer") => { reach("left out by name"); String::new() },
    _ => { reach("read"); inner },
  }
}
