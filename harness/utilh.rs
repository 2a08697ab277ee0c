use crate::common::*;
use crate::*;
use libxml::tree::*;
use libxml::xpath::Context;
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::*;
use llamapun::util::{path_helpers, token_model};
use llamapun::{ams, extern_use};

/// integers, floats and subfigure numbers
fn numeric(s: &[char]) -> bool {
  let mut i = 0;
  let n = s.len();
  let digit = |i: usize| i < n && s[i].is_ascii_digit();
  if i < n && s[i] == '-' { i += 1 }
  if !digit(i) { return false; }
  while digit(i) { i += 1 }
  if i == n { return true; }
  if i + 1 == n && ('a'..='k').contains(&s[i]) { return true; }
  if s[i] != '.' || !digit(i + 1) { return false; }
  i += 1;
  while digit(i) { i += 1 }
  if i == n { return true; }
  if s[i] != 'e' && s[i] != 'E' { return false; }
  i += 1;
  if i < n && (s[i] == '+' || s[i] == '-') { i += 1 }
  if !digit(i) { return false; }
  while digit(i) { i += 1 }
  i == n
}
enum Word { Is(String), TooLong, Either(String) }
/// what a word without formula comes to
fn normalized(text: &str, punct: bool, case: bool) -> Word {
  let s: String = if case { text.to_lowercase() } else { text.to_string() };
  let cs: Vec<char> = s.chars().filter(|c| !punct || c.is_alphanumeric()).collect();
  let s: String = cs.iter().collect();
  if cs.len() > 25 { return Word::TooLong; }
  let long = s.len() > 25; // more than 25 bytes, but not more than 25 characters
  let r = if s.to_lowercase().contains("citationelement") { "citationelement".to_string() } else if numeric(&cs) { "NUM".to_string() } else { s };
  if long { Word::Either(r) } else { Word::Is(r) }
}
fn warm() {
  let (d, dnm) = DNM::from_str("12", None).unwrap();
  let mut ctx = Context::new(&d).unwrap();
  let r = dnm.get_range().unwrap();
  let _ = ams_normalize_word_range(&r, &mut ctx, LexicalOptions::default());
  let (d, mut r) = Dom::new("math");
  let mut a = d.el(&mut r, "annotation");
  a.set_attribute("encoding", "application/x-llamapun").unwrap();
  a.append_text("ID:end x").unwrap();
  let mut ctx = Context::new(&d.doc).unwrap();
  let _ = llamapun::dnm::node::lexematize_math(d.root(), &mut ctx);
}

/// params: p0 symbolic characters, p1 alphabet, p2 what is in front of them
pub fn word() {
  warm();
  let wide: Vec<char> = WIDE.iter().copied().chain(['7', 'Σ']).filter(|c| *c != '٣').collect();
  let alpha: &[char] = match param(1) {
    0 => &['a', 'Z', '7', '-', '.', '\'', 'é', 'İ', '中', ' '],
    1 => &['0', '9', '-', '.', 'e', 'E', '+', 'k', 'l', 'a'],
    3 => &wide[..],
    _ => &['a', '7', '.', 'É', '𝒳'],
  };
  let front = match param(2) { 0 => "", 1 => "abcdefghijklmnopqrstuvw", 2 => "CitationElement", 3 => "12345678901234567890123", 5 => "-1.5e3", _ => "MathFormul" };
  let body = string_upto(alpha, param(0));
  let text = format!("{}{}", front, body);
  assume(!text.is_empty());
  let (d, dnm) = crate::tokh::raw(&text);
  let mut ctx = Context::new(&d).unwrap();
  let (punct, case, math) = (flag(), flag(), flag());
  let r = dnm.get_range().unwrap();
  let got = ams_normalize_word_range(&r, &mut ctx, LexicalOptions { discard_math: math, discard_punct: punct, discard_case: case }).ok();
  if let Some(g) = &got { emit_str(g) }
  let formula = { let s = if case { text.to_lowercase() } else { text.clone() }; s.chars().filter(|c| !punct || c.is_alphanumeric()).collect::<String>().contains("mathformula") };
  match normalized(&text, punct, case) {
    Word::Is(_) | Word::Either(_) if formula => { reach("formula"); check(got.as_deref() == Some(if math { "" } else { "mathformula" }), "a formula is replaced or discarded") },
    Word::TooLong => { reach("overlong word"); check(got.is_none(), "an overlong word is an error") },
    Word::Either(w) => check(got.is_none() || got == Some(w), "a word is normalized"),
    Word::Is(w) => {
      if w == "NUM" { reach("number") }
      if w == "citationelement" { reach("citation") }
      if !case && w.chars().any(|c| c.is_uppercase()) && w != "NUM" { reach("case kept") }
      check(got == Some(w), "a word is normalized: case, punctuation, numbers, citations")
    },
  }
}

fn math(d: &Dom, p: &mut Node, lex: Option<&str>) {
  let mut m = d.el(p, "math");
  if let Some(l) = lex {
    let mut s = d.el(&mut m, "semantics");
    let mut a = d.el(&mut s, "annotation");
    a.set_attribute("encoding", "application/x-llamapun").unwrap();
    a.append_text(l).unwrap();
  }
}
fn cite(d: &Dom, p: &mut Node) { let mut c = d.el(p, "cite"); c.append_text("[1]").unwrap(); }

/// a piece of running text: adds to the document, and the words it stands for (None: an overlong word)
fn piece(d: &Dom, p: &mut Node, kind: usize, c: char, tokens: bool, discard_math: bool, out: &mut Vec<Option<String>>) {
  match kind {
    0 => { p.append_text(&format!("w{}X ", c)).unwrap(); if c.is_alphanumeric() { out.push(Some(format!("w{}x", c.to_lowercase()))) } else { out.push(Some("w".to_string())); if tokens && !c.is_whitespace() { out.push(Some(c.to_string())) } out.push(Some("x".to_string())) } },
    1 => { math(d, p, Some(&format!("ITALIC:{} NUMBER:2", c))); p.append_text(" ").unwrap(); out.push(Some(if discard_math { String::new() } else { format!("ITALIC_{} NUM", if c == '-' { '_' } else { c }) })) },
    2 => { math(d, p, None); p.append_text(" ").unwrap(); out.push(Some(if discard_math { String::new() } else { "mathformula".to_string() })) },
    3 => { cite(d, p); p.append_text(" ").unwrap(); out.push(Some("citationelement".to_string())) },
    4 => { p.append_text("17 ").unwrap(); out.push(Some("NUM".to_string())) },
    5 => { p.append_text("abcdefghijklmnopqrstuvwxyzabc ").unwrap(); out.push(None) },
    7 => p.append_text(" ").unwrap(), // nothing
    8 => { // a display equation of two formulas
      let mut e = d.elc(p, "div", if tokens { "ltx_equation" } else { "ltx_equationgroup" });
      math(d, &mut e, Some(&format!("ITALIC:{}", c)));
      e.append_text(" and ").unwrap();
      math(d, &mut e, Some("NUMBER:2"));
      p.append_text(" ").unwrap();
      out.push(Some(if discard_math { String::new() } else { format!("ITALIC_{} NUM", if c == '-' { '_' } else { c }) }))
    },
    9 => { p.append_text("abcdefghijklmnopqrstuvwxy ").unwrap(); out.push(Some("abcdefghijklmnopqrstuvwxy".to_string())) },
    11 => { p.append_text("xCitationElement ").unwrap(); out.push(Some("citationelement".to_string())) },
    10 => { p.append_text("abcdefghijklmnopqrstuvwxyz ").unwrap(); out.push(None) },
    _ => { p.append_text("end. Then ").unwrap(); out.push(Some("end".to_string())); if tokens { out.push(Some(".".to_string())) } else { out.push(Some("\n".to_string())) } out.push(Some("then".to_string())) },
  }
}
const LETTER: &[char] = &['a', 'Q', '1', '-'];

/// words of a document by its path.  params: p0 paragraphs, p1 pieces each, p2 kinds, p3 1: through the C interface, p4 words in front
pub fn path_words() {
  let tok = Tokenizer::default();
  warm();
  { // lazily built expressions and the tokenizer of the corpus
    let (d, mut r) = Dom::new("html");
    let mut b = d.el(&mut r, "body");
    let mut p = d.elc(&mut b, "div", "ltx_para");
    p.append_text("Some 1 text. More").unwrap();
    let f = publish(&d.doc, "warm.xhtml");
    let _ = path_helpers::path_to_words(f);
    let _ = tok;
  }
  let (d, mut r) = Dom::new("html");
  let mut b = d.el(&mut r, "body");
  let mut want = String::new();
  for k in 0..param(0) {
    let mut p = d.elc(&mut b, "div", if k == 1 { "ltx_para x" } else { "ltx_para" });
    let mut out = vec![Some("Lead".to_lowercase())];
    p.append_text("Lead ").unwrap();
    for _ in 0..param(4) { p.append_text("word ").unwrap(); out.push(Some("word".to_string())); reach("many words") }
    for _ in 0..param(1) { let kind = pick(param(2)); let c = if kind < 2 || kind == 8 { ch(LETTER) } else { 'z' }; piece(&d, &mut p, kind, c, false, false, &mut out) }
    if out.iter().any(|w| w.is_none()) { reach("paragraph with an overlong word"); continue; }
    let mut s = String::new();
    for w in out { let w = w.unwrap(); if w == "\n" { s.push('\n') } else { s.push_str(&w); s.push(' ') } }
    s.push('\n');
    if s.matches('\n').count() > 1 { reach("several sentences in the paragraph") }
    want.push_str(&s);
  }
  let path = publish(&d.doc, "d.xhtml");
  let got = if param(3) == 1 {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe { std::ffi::CString::from_raw(extern_use::word_tokenize_for_vec2doc(c.as_ptr())) }.into_string().unwrap()
  } else { path_helpers::path_to_words(path) };
  emit_str(&got);
  check(got == want, "the normalized words of all paragraphs, one sentence a line");
}

/// the token model of a corpus.  params: p0 documents, p1 paragraphs, p2 pieces each, p3 kinds, p4 1: any kind of extended paragraph, p5 words in front
pub fn tokens() {
  warm();
  let discard = flag();
  let mut counts: Vec<(&str, u64)> = ["document_count", "paragraph_count", "word_count", "overflow_count", "formula_count", "citation_count", "num_count"].iter().map(|k| (*k, 0)).collect();
  let mut files = Vec::new();
  let mut texts = Vec::new();
  for i in 0..param(0) {
    let (d, mut r) = Dom::new("html");
    let mut b = d.el(&mut r, "body");
    let mut text = String::new();
    counts[0].1 += 1;
    let mut lines = Vec::new();
    for _ in 0..param(1) {
      let at = if param(4) == 1 { pick(5) } else { 2 };
      let mut p = match at {
        0 => { let mut a = d.elc(&mut b, "div", "ltx_abstract"); d.elc(&mut a, "p", "ltx_p") },
        1 => d.elc(&mut b, "div", "ltx_keywords"),
        2 => d.elc(&mut b, "div", "ltx_para"),
        3 => d.elc(&mut b, "div", "ltx_acknowledgement"),
        _ => d.elc(&mut b, "figcaption", "ltx_caption"),
      };
      // of the abstract, keywords and acknowledgements only the first counts
      if at % 2 == 1 || at == 0 { assume(lines.iter().all(|(a, _)| *a != at)) }
      counts[1].1 += 1;
      let mut out = Vec::new();
      for _ in 0..param(5) { p.append_text("word ").unwrap(); out.push(Some("word".to_string())); reach("many words") }
      for _ in 0..param(2) { let kind = pick(param(3)); let c = if kind < 2 || kind == 8 { ch(LETTER) } else { 'z' }; piece(&d, &mut p, kind, c, true, discard, &mut out) }
      // words up to the first overlong one are counted, but not written
      let (mut line, mut valid) = (String::from("\n"), true);
      for w in out {
        match w {
          None => { counts[3].1 += 1; valid = false; reach("paragraph with an overlong word"); break; },
          Some(w) => {
            let k = if w.is_empty() || w == "mathformula" || w.ends_with(" NUM") { 4 } else if w == "citationelement" { 5 } else if w == "NUM" { 6 } else { 2 };
            counts[k].1 += 1;
            line.push_str(&w);
            line.push(' ');
          },
        }
      }
      if line == "\n" && valid { reach("paragraph without words") }
      lines.push((at, if valid { line } else { String::new() }));
    }
    for at in 0..5 { for (a, l) in &lines { if *a == at { text.push_str(l) } } }
    let path = format!("{}/c/{}.xhtml", root(), i);
    publish_at(&d.doc, &path);
    files.push(path);
    texts.push(text);
  }
  vfs::set_files(files);
  let swap = param(0) > 1 && flag();
  if swap { vfs::set_schedule(vec![1]) }
  let model = format!("{}/model.txt", root());
  let got = token_model::extract(root() + "/c", model.clone(), discard).ok().unwrap();
  check(got.len() == counts.len(), "the report has its seven counts");
  for (k, n) in &counts { emit(1, *n); check(got.get(*k) == Some(n), "the report counts documents, paragraphs, words, formulas, citations and numbers") }
  let written = String::from_utf8(file(&model).unwrap()).unwrap();
  emit_str(&written);
  if discard { reach("formulas discarded") }
  if param(0) == 2 {
    let (a, b) = (format!("{}{}", texts[0], texts[1]), format!("{}{}", texts[1], texts[0]));
    if a != b && written == b { reach("documents in the other order") }
    check(written == a || written == b, "the model has the tokens of each document, together");
  } else { check(written == texts.concat(), "the model has the tokens of the paragraphs in order, one paragraph a line") }
}

const CORE: &[(&str, &str)] = &[("definition", "definition"), ("theorem", "theorem"), ("lemma", "lemma"), ("remark", "remark"), ("proof", "proof"), ("proposition", "proposition"),
  ("problem", "problem"), ("exercise", "problem"), ("condition", "condition"), ("result", "result"), ("example", "example"), ("method", "methods"), ("question", "question"), ("axiom", "axiom"),
  ("conjecture", "conjecture"), ("observation", "observation"), ("notation", "notation"), ("experiment", "experiment"), ("discussion", "discussion"), ("conclusion", "conclusion"), ("motivation", "motivation"),
  ("simulation", "simulation"), ("model", "model"), ("related work", "related work"), ("subject", "subject"), ("data set", "data set"), ("dataset", "dataset"), ("contribution", "contribution"), ("application", "application"), ("assumption", "assumption"), ("algorithm", "algorithm"), ("step", "step")];
/// types that are recognized by their first word, whatever follows
const HEAD: &[&str] = &["definition", "theorem", "lemma", "remark", "proof", "proposition", "problem", "exercise", "condition", "result", "example", "method", "question", "axiom", "conjecture",
  "observation", "notation", "experiment", "discussion", "conclusion", "motivation", "model", "contribution", "simulation"];
const LEAD: &[&str] = &["", "the", "some", "an", "our", "additional", "other", "list of", "summary of", "outline of", "sketch of", "first", "second", "alternative", "section", "general", "basic",
  "comparison with", "overview of", "start of", "end of", "completion", "finishing", "third", "new", "chapter", "closely"];
const TRAIL: &[&str] = &["", "see", "of", "for", "of the paper"];
/// a number of some kind: nothing, a roman numeral, NUM, a letter
fn number(k: usize) -> String {
  match k {
    0 => String::new(),
    1 => string(&['x', 'i', 'v'], 2),
    2 => "NUM".to_string(),
    3 => ch(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'x', 'v']).to_string(),
    _ => string(&['x', 'i', 'v'], 5),
  }
}
fn join(ws: &[String], blank: &str) -> String {
  let mut s = String::new();
  for w in ws { if w.is_empty() { continue; } if !s.is_empty() { s.push_str(blank) } s.push_str(w) }
  s
}
/// numbering, fillers and plurals around a known type.  params: p0 kinds of numbers in front, p1 behind, p2 first type, p3 number of types
pub fn heading_type() {
  let _ = normalize_heading_title("Warm ii up a");
  let (a, n) = (param(2), param(3));
  let k = a + pick((if n == 0 { CORE.len() } else { n }).min(CORE.len() - a));
  let (core, canon) = CORE[k];
  let lead = if param(0) > 9 { one_of(LEAD) } else { ["", "list of"][pick(2)] };
  let trail = if param(1) > 9 { one_of(TRAIL) } else { ["", "of"][pick(2)] };
  let plural = if flag() { "s" } else { "" };
  let blank = if flag() { "  " } else { " " };
  let a = number(pick(param(0) % 10 + 1));
  let b = number(pick(param(1) % 10 + 1));
  let other = if trail.is_empty() && HEAD.contains(&core) && flag() { "zebra" } else { "" };
  let h = join(&[a, lead.to_string(), format!("{}{}", core, plural), b, other.to_string(), trail.to_string()], blank);
  let h = if flag() { format!(" {} ", h) } else { h };
  emit_str(&h);
  if !other.is_empty() { reach("type in front of another word") }
  let got = normalize_heading_title(&h);
  emit_str(&got);
  check(got == canon, "numbering, fillers, plural and blanks do not change the type of a heading");
  check(normalize_heading_title(&got) == got, "the normal form of a heading is its own normal form");
}
const STARTS: &[(&str, &str)] = &[("acknowledgement", "acknowledgement"), ("acknowledgments", "acknowledgement"), ("aknowledgement", "acknowledgement"), ("proof", "proof"), ("remark", "remark"), ("experiment", "experiment"),
  ("experimental", "experiment"), ("keyword", "keywords"), ("keywords", "keywords"), ("key words", "keywords"), ("introduction", "introduction"), ("related work", "related work"), ("background", "background"), ("appendix", "appendix"),
  ("appendices", "appendix"), ("notation", "notation"), ("theorem", "theorem"), ("lemma", "lemma"), ("corollary", "corollary"), ("proposition", "proposition"), ("definition", "definition"), ("axiom", "axiom"), ("conjecture", "conjecture"),
  ("hypothesis", "conjecture"), ("fact", "fact"), ("problem", "problem"), ("exercise", "problem"), ("question", "question"), ("result", "result"), ("msc", "subject"), ("conclusion", "conclusion"), ("concluding remarks", "conclusion"),
  ("summary", "summary"), ("observation", "observation"), ("model", "model"), ("method", "methods"), ("future", "future work"), ("description", "description"), ("discussion", "discussion"), ("example", "example"), ("properties", "property"),
  ("property", "property"), ("preliminaries", "preliminaries"), ("condition", "condition"), ("contribution", "contribution"), ("analysis", "analysis"), ("motivation", "motivation"), ("demonstration", "demonstration"),
  ("simulation", "simulation"), ("simulation results", "result"), ("simulation result", "result")];
const ENDS: &[(&str, &str)] = &[("demonstration", "demonstration"), ("simulation", "simulation"), ("proof", "proof"), ("remark", "remark"), ("notation", "notation"), ("experiment", "experiment"), ("theorem", "theorem"), ("lemma", "lemma"),
  ("corollary", "corollary"), ("proposition", "proposition"), ("definition", "definition"), ("axiom", "axiom"), ("conjecture", "conjecture"), ("hypothesis", "conjecture"), ("conclusion", "conclusion"), ("summary", "summary"),
  ("problem", "problem"), ("exercise", "problem"), ("question", "question"), ("result", "result"), ("method", "methods"), ("model", "model"), ("description", "description"), ("discussion", "discussion"), ("example", "example"),
  ("property", "property"), ("properties", "property"), ("preliminaries", "preliminaries"), ("condition", "condition"), ("contribution", "contribution"), ("analysis", "analysis"), ("motivation", "motivation")];
const SAME: &[(&str, &str)] = &[("hypothesis", "conjecture"), ("hypotheses", "conjecture"), ("implementation details", "implementation"), ("mathematics subject classification", "subject"), ("subject headings", "subject"), ("bibliography", "references"),
  ("previous work", "related work"), ("prior work", "related work"), ("related literature", "related work"), ("related research", "related work"), ("related studies", "related work"), ("literature review", "related work"),
  ("preliminary", "preliminaries"), ("analyses", "analysis"), ("theoretical background", "background"), ("exemple", "example"), ("exercise", "problem")];
/// types in context: the first words count more than the last ones.  params: p0 what, p1 kinds of numbers around
pub fn heading_context() {
  let _ = normalize_heading_title("Warm ii up a");
  let (h, canon) = match param(0) {
    0 => { let (t, c) = STARTS[pick(STARTS.len())]; (format!("{} {}", t, one_of(&["zebra", "zebra quagga", "zebra quaggas"])), c) },
    1 => { let (t, c) = ENDS[pick(ENDS.len())]; (format!("{} {}", one_of(&["zebra", "zebra quagga"]), t), c) },
    4 => { let t = ENDS[pick(ENDS.len())].0; (format!("zebra {} quagga", t), "*") },
    2 => { let (t, c) = STARTS[pick(STARTS.len())]; (format!("{} zebra {}", t, ENDS[pick(ENDS.len())].0), c) },
    _ => { let (t, c) = SAME[pick(SAME.len())]; (t.to_string(), c) },
  };
  let plain = h.clone();
  let h = join(&[number(pick(param(1) + 1)), h, number(pick(param(1) + 1))], " ");
  emit_str(&h);
  let got = normalize_heading_title(&h);
  emit_str(&got);
  if canon == "*" { check(got == plain, "a heading with a type in the middle only keeps its words"); return }
  check(got == canon, "the type of a heading is that of its first words, or else of its last ones");
  check(normalize_heading_title(&got) == got, "the normal form of a heading is its own normal form");
  reach("type in context");
}
/// headings of unknown words keep these.  params: p0 items
pub fn heading_words() {
  let _ = normalize_heading_title("Warm ii up a");
  let mut items: Vec<String> = Vec::new();
  let mut want: Vec<String> = Vec::new();
  for _ in 0..param(0) {
    match pick(5) {
      0 => { let w = format!("z{}k", ch(&['a', 'i', 's', 'x'])); items.push(w.clone()); want.push(w) },
      1 => items.push(string(&['x', 'i', 'v'], 1)),
      2 => items.push(string(&['x', 'i', 'v'], 2)),
      3 => items.push("NUM".to_string()),
      _ => { let c = ch(&['a', 'p', 'q', 'z']); items.push(c.to_string()); if c == 'q' || c == 'z' { want.push(c.to_string()) } },
    }
  }
  let h = join(&items, if flag() { "  " } else { " " });
  emit_str(&h);
  let got = normalize_heading_title(&h);
  emit_str(&got);
  if want.len() > 1 && want.len() < items.len() { reach("number between words") }
  check(got == want.join(" "), "numbers are dropped from a heading, and its other words stay apart");
}
/// the words of a heading in a document.  params: p0 pieces, p1 kinds
pub fn heading_node() {
  let tok = Tokenizer::default();
  warm();
  let (d, mut r) = Dom::new("html");
  let mut h = d.elc(&mut r, "h2", "ltx_title");
  let mut out = Vec::new();
  for _ in 0..param(0) { let kind = pick(param(1)); let c = if kind < 2 || kind == 8 { ch(LETTER) } else { 'z' }; piece(&d, &mut h, kind, c, false, false, &mut out) }
  let node = d.root().get_first_child().unwrap();
  let mut ctx = Context::new(&d.doc).unwrap();
  let got = heading_from_node_aux(node, &tok, &mut ctx);
  if let Some(g) = &got { emit_str(g) }
  if out.iter().any(|w| w.is_none()) { reach("heading with an overlong word"); check(got.is_none(), "a heading with an overlong word is none") }
  else {
    let want: String = out.into_iter().flatten().filter(|w| w != "NUM" && w != "\n").map(|w| w + " ").collect();
    // an empty heading may have no text at all
    check(got.unwrap_or_default() == want, "the heading has its normalized words without numbers");
  }
}

/// a plot.  params: p0 entries
pub fn plot() {
  let k = pick(param(0) + 1);
  let mut map: Vec<(u32, usize)> = Vec::new();
  for _ in 0..param(2) { map.push((7, 3)); }
  for _ in 0..k { map.push(([0u32, 1, 2, 1000000][pick(4)], [1usize, 2, 3, 1024, 1 << 40][pick(5)])); }
  let mark = string_upto(&['a', ' ', 'é', '.', '/'], 1);
  let texts: Vec<String> = (0..4).map(|i| format!("{}{}", ["x", "y", "t", "f"][i], mark)).collect();
  // through a table, for the function to stay one of its own in the compiled code
  type Plot = fn(&[(u32, usize)], &str, &str, &str, &str);
  fn none(_: &[(u32, usize)], _: &str, _: &str, _: &str, _: &str) {}
  let table: [Plot; 2] = [llamapun::util::plot::plot_simple, none];
  table[param(1)](&map, &texts[0], &texts[1], &texts[2], &texts[3]);
  let shown = gnuplot::shown();
  check(shown.len() == 1, "one figure is shown");
  let (points, labels) = &shown[0];
  emit(1, points.len() as u64);
  check(points.len() == map.len(), "there is one point per entry");
  // in whatever order
  let mut left = points.clone();
  for (x, n) in &map {
    let y = match *n { 1 => 0.0, 2 => 1.0, 3 => 1.584962500721156, 1024 => 10.0, _ => 40.0 };
    match left.iter().position(|p| p.0 == *x as f64 && p.1 - y < 1e-6 && y - p.1 < 1e-6) { Some(i) => { left.remove(i); }, None => check(false, "each entry is drawn at its key and the binary logarithm of its frequency") }
  }
  if k > 1 { reach("several points") }
  if param(2) > 0 { reach("many points") }
  for (what, want) in [("x", &texts[0]), ("y", &texts[1]), ("title", &texts[2]), ("file", &texts[3])] {
    let last = labels.iter().rev().find(|l| l.0 == what);
    check(last.map(|l| &l.1) == Some(want), "labels, title and file are those given");
  }
  check(labels.iter().any(|l| l.0 == "terminal" && l.1.starts_with("png")), "the plot is a PNG image");
}

/// the language filter, for any classifier.  params: p0 pieces of text
pub fn language() {
  let _ = crate::tokh::raw("x");
  let mut text = String::new();
  let mut prose = String::new();
  for _ in 0..param(0) {
    match pick(6) {
      0 => { let c = ch(&['a', 'R', 'é', '中', '.']); text.push(c); prose.push(c) },
      1 => { text.push(' '); prose.push(' ') },
      2 => { text.push_str("mathformula"); prose.push(' ') },
      3 => { text.push_str("CitationElement"); prose.push(' ') },
      4 => { text.push_str("REF"); prose.push(' ') },
      _ => { text.push_str("math formula"); prose.push_str("math formula") },
    }
  }
  assume(!text.is_empty());
  let (_d, dnm) = crate::tokh::raw(&text);
  let words: Vec<&str> = prose.split_whitespace().collect();
  let want = if !words.is_empty() && flag() {
    let (lang, script, sure) = (pick(4), pick(2), pick(6));
    whatlang::set_verdict(lang, script, [0.0, 0.5, 0.929, 0.93, 0.931, 1.0][sure]);
    if script == 0 && lang != 0 && sure == 3 { reach("another language, just not sure enough") }
    if script == 0 && lang != 0 && sure > 3 { reach("another language") }
    if script == 1 && lang == 0 { reach("another script") }
    script != 0 || lang != 0 && sure > 3
  } else { whatlang::set_none(); reach("no verdict"); false };
  let got = llamapun::util::data_helpers::invalid_for_english_latin(&dnm);
  emit(1, got as u64);
  check(got == want, "a text is left out if it is in another script, or surely in another language");
  // a text without prose need not be judged
  if words.is_empty() { reach("nothing but tokens") } else { check(!whatlang::seen().is_empty(), "a text with prose is judged") }
  for s in whatlang::seen() {
    emit_str(&s);
    check(s.split_whitespace().collect::<Vec<_>>() == words, "only the prose of a text is judged");
  }
}

fn ams_envs() -> Vec<ams::AmsEnv> {
  use ams::AmsEnv::*;
  vec![Acknowledgement, Algorithm, Answer, Affirmation, Assumption, Bound, Caption, Case, Claim, Comment, Conclusion, Condition, Conjecture, Constraint, Convention, Corollary, Criterion, Definition,
    Demonstration, Discussion, Example, Experiment, Expansion, Expectation, Explanation, Fact, Hint, Issue, Keywords, Lemma, Notation, Note, Notice, Observation, Paragraph, Principle, Problem, Proof,
    Proposition, Question, Remark, Result, Rule, Solution, Step, Summary, Theorem, Other]
}
fn structural_envs() -> Vec<ams::StructuralEnv> {
  use ams::StructuralEnv::*;
  vec![Abstract, Acknowledgement, Analysis, Application, Assumption, Background, Case, Caption, Claim, Conclusion, Condition, Conjecture, Contribution, Corollary, Data, Dataset, Definition, Demonstration,
    Description, Discussion, Example, Experiment, Fact, FutureWork, Implementation, Introduction, Lemma, Methods, Model, Motivation, Notation, Observation, Other, Preliminaries, Problem, Proof, Property,
    Proposition, Question, RelatedWork, Remark, Result, Simulation, Step, Summary, Theorem, Theory]
}
/// names of environments as authors write them
const USUAL: &[(&str, &str)] = &[("thm", "theorem"), ("theo", "theorem"), ("lem", "lemma"), ("lemm", "lemma"), ("prop", "proposition"), ("cor", "corollary"), ("coro", "corollary"), ("defn", "definition"), ("def", "definition"),
  ("dfn", "definition"), ("rem", "remark"), ("rmk", "remark"), ("ex", "example"), ("exam", "example"), ("conj", "conjecture"), ("prob", "problem"), ("que", "question"), ("obs", "observation"), ("clm", "claim"), ("ass", "assumption"),
  ("hyp", "conjecture"), ("pf", "proof"), ("alg", "algorithm"), ("notn", "notation"), ("exercise", "problem"), ("thanks", "acknowledgement")];
const LOWER: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];
/// environments have one name each, and the usual abbreviations lead to them.  params: p0 what
pub fn envs() {
  let _ = ams::class_to_env("ltx_theorem_x");
  let _: ams::StructuralEnv = "Warm ii up a".into();
  match param(0) {
    0 => {
      let all = ams_envs();
      let e = all[pick(all.len())];
      let name = e.to_string();
      emit_str(&name);
      // authors use the name "other" for theorems, and none writes "caption"
      if e != ams::AmsEnv::Other && e != ams::AmsEnv::Caption {
        check(ams::normalize_env(&name) == e, "an environment is found under its own name");
        check(ams::class_to_env(&format!("ltx_theorem ltx_theorem_{}", name)) == Some(e), "and as a class");
      }
      for o in &all { check((o.to_string() == name) == (*o == e), "names of environments differ") }
    },
    1 => {
      let all = structural_envs();
      let e = all[pick(all.len())];
      let name = e.to_string();
      for o in &all { check((o.to_string() == name) == (*o == e), "names of environments differ") }
      // any mix of cases
      let at = pick(name.len());
      let c = name.as_bytes()[at] as char;
      let x = ch(&[c, c.to_ascii_uppercase()]);
      let heading = format!("{}{}{}{}", if flag() { "" } else { " " }, &name[..at], x, &name[at + 1..]);
      emit_str(&heading);
      check(ams::StructuralEnv::from(heading.as_str()) == e, "an environment is found under its own name in any case");
      let full = format!("{}. {}", "ii", heading);
      let _ = full;
    },
    2 => {
      let (name, env) = USUAL[pick(USUAL.len())];
      emit_str(name);
      check(ams::normalize_env(name).to_string() == env, "the usual abbreviations lead to their environment");
    },
    3 => {
      // class attributes: tokens in front of, the environment class, and behind
      let env = string(&['t', 'h', 'm', '1', '_', 'e'], pick(param(1).max(3)) + 1);
      let kind = pick(6);
      let core = match kind { 5 => format!("ltx_theorem_{} ltx_theorem_lemma", env), 0 => format!("ltx_theorem_{}", env), 1 => format!("ltx_theorem ltx_theorem_{}", env), 2 => "ltx_theorem".to_string(), 3 => "ltx_proof".to_string(), _ => format!("ltx_{}", env) };
      let front = one_of(&["", "ltx_indent "]);
      let back = one_of(&["", " ltx_x", "\tb"]);
      let class = format!("{}{}{}", front, core, back);
      emit_str(&class);
      let got = ams::class_to_env(&class);
      match kind {
        0 | 1 => check(got == Some(ams::normalize_env(&env)), "the environment named by the class"),
        5 => { reach("two environments"); check(got == Some(ams::normalize_env(&env)), "the environment named by the first such class") },
        2 => check(got == Some(ams::AmsEnv::Theorem), "an unnamed environment is a theorem"),
        3 => if front.is_empty() && back.is_empty() { reach("proof"); check(got == Some(ams::AmsEnv::Proof), "a proof") },
        _ => check(got.is_none(), "other classes are not AMS markup"),
      }
      if ams::normalize_env(&env) == ams::AmsEnv::Theorem && kind < 2 { reach("theorem by abbreviation") }
      check(ams::class_to_env("").is_none(), "no class, no environment");
    },
    6 => {
      // every name in use
      let t = crate::amstable::USED;
      let i = pick(t.len() / 92 + 1) * 92 + pick(92);
      assume(i < t.len());
      let (name, e) = t[i];
      emit_str(name);
      check(ams::normalize_env(name) == e, "a name in use leads to its environment");
      check(ams::class_to_env(&format!("ltx_theorem ltx_theorem_{}", name)) == Some(e), "and as a class");
    },
    7 => {
      // p1: least length, p2: number of lengths
      let name = string(LOWER, param(1) + pick(param(2)));
      let t = crate::amstable::USED;
      let mut want = ams::AmsEnv::Other;
      for (n, e) in t { if n.len() == name.len() && *n == name { want = *e } }
      if want != ams::AmsEnv::Other { reach("name in use") }
      check(ams::normalize_env(&name) == want, "a name in use leads to its environment, any other to none");
    },
    5 => {
      // a name with something in front or behind
      let all = ams_envs();
      let e = all[pick(all.len())];
      let (front, back) = (string_upto(LOWER, param(1)), string_upto(LOWER, param(2)));
      let name = format!("{}{}{}", front, e, back);
      emit_str(&name);
      let got = ams::normalize_env(&name);
      if got == e && !back.is_empty() { reach("decorated name") }
      // the shortlist itself has a few names of other environments
      let odd = ["assumptions", "qtheorem", "qtheorema", "theoremnl"].contains(&name.as_str());
      check(got == e || got == ams::AmsEnv::Other || e == ams::AmsEnv::Other || odd, "a decorated name leads to its environment or to none");
    },
    _ => {
      let corpus = llamapun::data::Corpus::new(root());
      let (d, mut r) = Dom::new("html");
      let mut any = false;
      let space = pick(3);
      name_space(&mut r, space);
      let mut p = d.el(&mut r, "body");
      name_space(&mut p, space);
      for _ in 0..param(1).max(2) {
        let name = one_of(&["div", "p"]);
        let c = format!("{}ltx_theore{}{}", one_of(&["", "ltx_a "]), ch(&['m', 'n']), one_of(&["", "_thm", " b"]));
        let mut e = d.elc(&mut p, name, &c);
        name_space(&mut e, space);
        if name == "div" && c.contains("ltx_theorem") { any = true }
        if flag() { p = d.el(&mut e, "section"); name_space(&mut p, space); }
      }
      let path = publish(&d.doc, "d.xhtml");
      let doc = corpus.load_doc(path).ok().unwrap();
      if any { reach("markup"); if space > 0 { reach("markup in a namespace") } }
      check(ams::has_markup_xmldoc(&d.doc) == any && ams::has_markup(&doc) == any, "a document has AMS markup if a div has a theorem class");
    },
  }
}
