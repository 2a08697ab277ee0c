// DNMRange: text, trimming, subranges, XPointer serialization (src/dnm/range.rs)
use crate::common::*;
use crate::*;
use libxml::tree::{Namespace, Node};
use libxml::xpath::Context;
use llamapun::dnm::*;
use std::collections::HashMap;

fn plain() -> DNMParameters { DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() } }

/// a text of n symbolic characters and a symbolic range of it.  params: n, what (0 text/trim, 1 subranges)
pub fn range() {
  let n = param(0);
  let alpha: &[char] = if param(1) == 0 { TEXT } else { &['a', ' ', 'é', '中', '𝒳'] };
  // p2 characters in front
  let before: String = "lorem é ".chars().cycle().take(param(2)).collect();
  let t: Vec<char> = (before + &string_upto(alpha, n)).chars().collect();
  let text: String = t.iter().collect();
  let (_doc, dnm) = DNM::from_str(&text, Some(plain())).unwrap();
  assume(dnm.plaintext == text);
  let lo = param(2).saturating_sub(2);
  let s = if lo > 0 && flag() { pick(3) } else { lo + pick(t.len() + 1 - lo) };
  let lo = lo.max(s);
  let e = lo + pick(t.len() + 1 - lo);
  let r = DNMRange { start: s, end: e, dnm: &dnm };
  if e - s > 250 { reach("long range") }
  let sub: String = t[s..e].iter().collect();
  emit_str(&sub);
  if param(1) == 0 {
    check(r.get_plaintext() == sub, "the text of a range is its characters");
    let mut cut = e;
    while cut > s && t[cut - 1].is_whitespace() { cut -= 1; }
    let tr: String = t[s..cut].iter().collect();
    check(r.get_plaintext_truncated() == tr, "the truncated text lacks trailing whitespace");
    check(r.is_empty() == (s == e), "a range is empty when it has no characters");
    let c = r.clone();
    check(c.start == s && c.end == e, "a clone is the same range");
    let q = r.trim();
    let mut from = s;
    while from < cut && t[from].is_whitespace() { from += 1; }
    if from == cut {
      check(q.start == e && q.end == e, "a blank range trims to the empty range at its end");
      reach("blank range");
    } else {
      check(q.start == from && q.end == cut, "trim removes exactly the surrounding whitespace");
      if from > s { reach("leading blanks"); }
      if cut < e { reach("trailing blanks"); }
    }
    if s < t.len() { check(r.get_node() == dnm.back_map[s].0, "the node of a range is where its first character came from"); }
  } else {
    // by character offsets
    let near = |from: usize| { let lo = (e - s).saturating_sub(3).max(from); if param(2) > 0 { lo + pick(e - s - lo + 1) } else { from + pick(e - s - from + 1) } };
    let a = near(0);
    let b = near(a);
    let q = r.get_subrange(a, b);
    check(q.start == s + a && q.end == s + b, "a subrange is relative to the start of the range");
    let want: String = t[s + a..s + b].iter().collect();
    check(q.get_plaintext() == want, "and its text a part of the range's text");
    // by byte offsets
    let len = sub.len();
    let near = |from: usize| { let lo = len.saturating_sub(5).max(from); if param(2) > 0 { lo + pick(len - lo + 1) } else { from + pick(len - from + 1) } };
    let x = near(0);
    let y = near(x);
    let q = r.get_subrange_from_byte_offsets(x, y);
    let mut first = e;
    let mut last = s;
    let mut at = 0;
    for i in s..e {
      let w = t[i].len_utf8();
      if at <= x && x < at + w { first = i; }
      if at < y { last = i + 1; }
      at += w;
    }
    check(q.start == first, "a byte range starts at the character its first byte is in");
    check(q.end == last || (x == y && q.end == q.start), "a byte range ends with the character its last byte is in");
    if y < len && !sub.is_char_boundary(y) { reach("byte range ends within a character"); }
    if y == 0 { reach("empty byte range"); }
  }
}

fn entry(dnm: &DNM, p: usize) -> (RoNode, i32) { dnm.back_map[p] }
/// is there anything (element or text) after this node, below the root?
fn followed(root: RoNode, n: RoNode) -> bool {
  let mut cur = n;
  loop {
    if cur == root { return false; }
    let mut s = cur.get_next_sibling();
    while let Some(x) = s { if x.is_element_node() || is_text(x) { return true; } s = x.get_next_sibling(); }
    cur = cur.get_parent().unwrap();
  }
}

/// serialization round trip.  params: items, alphabet, namespaces, normalize
pub fn xptr() {
  let (d, mut root) = Dom::new("html");
  let ns = param(2);
  if ns == 1 { let n = Namespace::new("", "http://www.w3.org/1999/xhtml", &mut root).unwrap(); root.set_namespace(&n).unwrap(); }
  let mut body = d.el(&mut root, "body");
  let set = |e: &mut Node| { if ns == 1 { let n = Namespace::new("", "http://www.w3.org/1999/xhtml", e).unwrap(); e.set_namespace(&n).unwrap(); } };
  set(&mut body);
  let alpha: &[char] = match param(1) { 0 => &['a', ' ', 'é'], _ => &['a', ' '] };
  // p4 1: the DNM is that of an element inside of the document, with text around
  let part = param(4) == 1;
  let mut page = body.clone();
  if part {
    body.append_text("xy").unwrap();
    let mut sec = d.el(&mut body, "section");
    set(&mut sec);
    sec.set_attribute("id", "sec").unwrap();
    body = sec;
  }
  for i in 0..param(0) {
    match pick(7) {
      6 => { d.cdata(&mut body, &string(alpha, 1)); reach("character data section"); },
      0 => { body.append_text(&string(alpha, 1)).unwrap(); },
      1 => { body.append_text(&string(alpha, 2)).unwrap(); },
      2 => { // replaced by a token
        let mut m = d.el(&mut body, "math");
        set(&mut m);
        if flag() { m.set_attribute("id", &format!("m{}", i)).unwrap(); }
        m.append_text("ab").unwrap();
      },
      3 => { // entered
        let mut p = d.el(&mut body, "p");
        set(&mut p);
        if flag() { p.set_attribute("id", &format!("p{}", i)).unwrap(); }
        let k = pick(3);
        if k == 1 { p.append_text(&string(alpha, 1)).unwrap(); }
        if k == 2 { let mut m = d.el(&mut p, "math"); set(&mut m); m.append_text("x").unwrap(); }
      },
      4 => { let mut p = d.el(&mut body, "img"); set(&mut p); p.append_text("gone").unwrap(); },
      _ => { d.comment(&mut body, "c"); },
    }
  }
  if part {
    if flag() { page.append_text("ab").unwrap() } else { let mut p = d.el(&mut page, "p"); set(&mut p); p.append_text("ab").unwrap(); }
  }
  let root = if part { d.root().get_first_child().unwrap().get_child_nodes().into_iter().find(|n| n.get_name() == "section").unwrap() } else { d.root() };
  let mut n = HashMap::new();
  n.insert("math".to_string(), SpecialTagsOption::Normalize("MF".to_string()));
  n.insert("img".to_string(), SpecialTagsOption::Skip);
  let dnm = DNM::new(root, DNMParameters {
    special_tag_name_options: n,
    normalize_white_spaces: param(3) == 1,
    wrap_tokens: flag(),
    ..DNMParameters::default()
  });
  let len = dnm.back_map.len();
  assume(len > 0);
  let s = pick(len + 1);
  let e = s + pick(len - s + 1);
  // documented limitation: the end of the last node of a document cannot be addressed
  let last = entry(&dnm, len - 1);
  let mut cut = false;
  if e == len && !(last.1 >= 0 || (s < len && followed(root, last.0))) { assume(part); cut = true; }
  let mut round = e;
  if e < len {
    let (en, eo) = entry(&dnm, e);
    if eo < 0 {
      let er = dnm.get_range_of_node(en).unwrap();
      if er.start < e { if !followed(root, en) { assume(part); cut = true; } round = er.end; reach("end inside a token"); } else { reach("end in front of a token"); }
    }
  } else { reach("end of the text"); }
  let mut from = s;
  if s < len {
    let (sn, so) = entry(&dnm, s);
    if so < 0 { from = dnm.get_range_of_node(sn).unwrap().start; reach("start in a token"); }
  }
  let r = DNMRange { start: s, end: e, dnm: &dnm };
  let x = r.serialize();
  emit_str(&x);
  check(x.starts_with("arange(") && x.ends_with(')'), "a range serializes to an arange pointer");
  let ctx = Context::new(&d.doc).unwrap();
  let back = DNMRange::deserialize(&x, &dnm, &ctx);
  check(back.start == from || (cut && s == len), "the start of a range survives the round trip, up to the start of a token");
  if cut {
    reach("last token of a part of the document");
    check(back.end <= round, "a range whose end cannot be addressed contains no further text");
    return;
  }
  check(back.end == round, "the end of a range survives the round trip, up to the end of a token");
}

/// ids and positions of all kinds.  params: 0 what is in an id, or (1) many siblings and long texts
pub fn xptr_ids() {
  let (d, mut root) = Dom::new("html");
  let mut body = d.el(&mut root, "body");
  if param(0) == 1 {
    for _ in 0..11 { let mut p = d.el(&mut body, "p"); p.append_text("x").unwrap(); body.append_text("y").unwrap(); }
    body.append_text(&"lorem é ipsum ".repeat(10)).unwrap();
  }
  let mut sec = d.el(&mut body, "section");
  if param(0) == 0 {
    let c = ch(&['a', '\'', '.', ':', ' ', ')', ']', '(', '[', '/', 'é', ',', '"', '@']);
    let e = ch(&['a', ',', '\'', '"', ' ']);
    let id = format!("S{}{}b", c, e);
    sec.set_attribute("id", &id).unwrap();
    if c == ',' || e == ',' { reach("comma in an id") }
    if c == '"' || e == '"' { reach("quote in an id") }
  }
  sec.append_text("ab").unwrap();
  let mut p = d.el(&mut sec, "p");
  p.append_text("cd").unwrap();
  let mut m = d.el(&mut sec, "math");
  m.append_text("x").unwrap();
  body.append_text("ef").unwrap();
  let root = d.root();
  let mut n = HashMap::new();
  n.insert("math".to_string(), SpecialTagsOption::Normalize("MF".to_string()));
  let dnm = DNM::new(root, DNMParameters { special_tag_name_options: n, ..DNMParameters::default() });
  let len = dnm.back_map.len();
  // ab cd MF ef, whose token is not cut
  let near = |k: usize| if k < 20 { k } else { len - 10 + (k - 20) };
  let first = if param(0) == 1 { pick(30) } else { pick(len + 1) };
  let s = if param(0) == 1 { near(first) } else { first };
  let e = if param(0) == 1 { let e = len - 10 + pick(11); assume(e >= s); e } else { s + pick(len - s + 1) };
  assume(s != len - 3 && e != len - 3);
  if e - s > 100 { reach("offset of several digits") }
  let x = DNMRange { start: s, end: e, dnm: &dnm }.serialize();
  emit_str(&x);
  let ctx = Context::new(&d.doc).unwrap();
  let back = DNMRange::deserialize(&x, &dnm, &ctx);
  check(back.start == s && back.end == e, "a range survives the round trip, whatever the ids and positions");
}

/// pointers below a root whose first level repeats a name found deeper in the document
pub fn xptr_root() {
  let (d, mut root) = Dom::new("html");
  let mut a = d.el(&mut root, "div");
  a.append_text("ab").unwrap();
  let mut b = d.el(&mut a, if flag() { "div" } else { "p" });
  b.append_text("cd").unwrap();
  let root = d.root();
  let dnm = DNM::new(root, DNMParameters::default());
  let s = pick(4);
  let e = s + 1;
  let x = DNMRange { start: s, end: e, dnm: &dnm }.serialize();
  emit_str(&x);
  let ctx = Context::new(&d.doc).unwrap();
  // the node part of the first pointer
  let node = &x["arange(string-index(".len()..x.find(',').unwrap()];
  let hits = ctx.evaluate(node).unwrap().get_number_of_nodes();
  let other = s >= 2 && e == 4;
  check(hits == 1, "[R02-root] the pointer of a node below the root matches other nodes, too");
  if !other { let end = &x[x.rfind("string-index(").unwrap() + 13..x.rfind(',').unwrap()]; check(ctx.evaluate(end).unwrap().get_number_of_nodes() == 1, "[R02-root] the pointer of a node below the root matches other nodes, too"); }
  let back = DNMRange::deserialize(&x, &dnm, &ctx);
  check(back.start == s && back.end == e, "the range survives the round trip");
  reach("pointer below the root");
}
