// Pattern files and matching (src/patterns): patterns are built from an own syntax tree, written as
// XML, loaded and matched by the real code, and compared with a reading of the same tree
use crate::common::*;
use crate::*;
use libxml::tree::Node;
use llamapun::dnm::*;
use llamapun::patterns::*;
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, Sentence, Word};
use std::collections::HashMap;

pub enum S { Word(W), Seq(Vec<S>), Phrase(usize, bool, Option<(Box<S>, bool)>, Option<Box<S>>), Mark(Box<S>, &'static str), Or(Vec<S>, usize), Ref(&'static str) }
pub enum W { Lit(String), Any, Or(Vec<W>), Not(Box<W>), Mark(Box<W>, &'static str), Pos(P, Box<W>), Math(M), Ref(&'static str) }
pub enum P { Tag(usize), Not(Box<P>), Or(Vec<P>), Ref(&'static str) }
pub enum M { Any, Mark(Box<M>, &'static str), Or(Vec<M>), Node(Option<String>, Option<T>, Option<(Vec<M>, usize)>), Desc(Box<M>, usize), Ref(&'static str) }
pub enum T { Any, Lit(String), Not(Box<T>), Or(Vec<T>), Ref(&'static str) }
/// rules that patterns refer to by name
#[derive(Default)]
pub struct Defs { s: Vec<(&'static str, S)>, w: Vec<(&'static str, W)>, p: Vec<(&'static str, P)>, m: Vec<(&'static str, M)>, t: Vec<(&'static str, T)> }
fn def<'a, X>(v: &'a [(&'static str, X)], name: &str) -> &'a X { &v.iter().find(|x| x.0 == name).unwrap().1 }

const TAGS: &[&str] = &["NN", "VB", "DT"];
const POSES: &[POS] = &[POS::NN, POS::VB, POS::DT];
const LABELS: &[&str] = &["NP", "VP"];
const PHRASES: &[Phrase] = &[Phrase::NP, Phrase::VP];
const OR_KINDS: &[&str] = &["first", "atleastone", "any", "longest"];
const KID_KINDS: &[&str] = &["starts_with", "exact", "ends_with", "arbitrary"];
const DESC_KINDS: &[&str] = &["first", "at_least_one", "arbitrary"];

/// writes patterns as XML; with `refs` every inner pattern becomes a rule of its own
struct Writer<'a> { d: &'a Dom, refs: bool, noise: bool, rules: Vec<Node>, n: usize }
impl<'a> Writer<'a> {
  fn el(&self, name: &str) -> Node {
    let mut e = Node::new(name, None, &self.d.doc).unwrap();
    if self.noise && name != "word" && name != "match_type" {
      e.append_text("\n  ").unwrap();
      self.d.comment(&mut e, "note");
    }
    e
  }
  fn add(&self, p: &mut Node, mut c: Node) {
    p.add_child(&mut c).unwrap();
    if self.noise { p.append_text("\n  ").unwrap(); }
  }
  fn rule(&mut self, kind: &str, body: Node) -> String {
    self.n += 1;
    let name = format!("{} {}", kind, self.n);
    let mut r = self.el(&format!("{}_rule", kind));
    r.set_attribute("name", &name).unwrap();
    self.add(&mut r, body);
    self.rules.push(r);
    name
  }
  fn by_ref(&mut self, kind: &str, e: Node) -> Node {
    if !self.refs { return e; }
    let name = self.rule(kind, e);
    let mut r = self.el(&format!("{}_ref", kind));
    r.set_attribute("ref", &name).unwrap();
    r
  }
  fn reference(&self, kind: &str, name: &str) -> Node {
    let mut r = self.el(&format!("{}_ref", kind));
    r.set_attribute("ref", name).unwrap();
    r
  }
  fn named(&mut self, kind: &str, name: &str, body: Node) {
    let mut r = self.el(&format!("{}_rule", kind));
    r.set_attribute("name", name).unwrap();
    self.add(&mut r, body);
    self.rules.push(r);
  }
  fn marker(&self, kind: &str, name: &str) -> Node {
    let mut e = self.el(&format!("{}_marker", kind));
    e.set_attribute("name", name).unwrap();
    if name == "m" { e.set_attribute("tags", "t, u v").unwrap(); }
    e
  }
  fn s(&mut self, s: &S) -> Node {
    let e = match s {
      S::Ref(name) => return self.reference("seq", name),
      S::Word(w) => { let k = self.w(w); let mut e = self.el("seq_word"); self.add(&mut e, k); e },
      S::Seq(v) => { let mut e = self.el("seq_seq"); for x in v { let k = self.s(x); self.add(&mut e, k); } e },
      S::Or(v, kind) => {
        let mut e = self.el("seq_or");
        if *kind != 0 || v.len() > 1 { e.set_attribute("match_type", OR_KINDS[*kind]).unwrap(); }
        for x in v { let k = self.s(x); self.add(&mut e, k); }
        e
      },
      S::Mark(x, name) => { let k = self.s(x); let mut e = self.marker("seq", name); self.add(&mut e, k); e },
      S::Phrase(l, longest, start, end) => {
        let mut e = self.el("phrase");
        e.set_attribute("tag", LABELS[*l]).unwrap();
        if !longest || self.noise { let mut m = self.el("match_type"); m.append_text(if *longest { " longest " } else { "shortest" }).unwrap(); self.add(&mut e, m); }
        if let Some((x, less)) = start {
          let k = self.s(x);
          let mut m = self.el("starts_with_seq");
          if *less { m.set_attribute("containment", "lessorequal").unwrap(); } else if self.noise { m.set_attribute("containment", "any").unwrap(); }
          self.add(&mut m, k);
          self.add(&mut e, m);
        }
        if let Some(x) = end { let k = self.s(x); let mut m = self.el("ends_with_seq"); self.add(&mut m, k); self.add(&mut e, m); }
        e
      },
    };
    self.by_ref("seq", e)
  }
  fn w(&mut self, w: &W) -> Node {
    let e = match w {
      W::Ref(name) => return self.reference("word", name),
      W::Lit(t) => { let mut e = self.el("word"); e.append_text(&if self.noise { format!("\n {} ", t) } else { t.clone() }).unwrap(); e },
      W::Any => self.el("word_any"),
      W::Or(v) => { let mut e = self.el("word_or"); for x in v { let k = self.w(x); self.add(&mut e, k); } e },
      W::Not(x) => { let k = self.w(x); let mut e = self.el("word_not"); self.add(&mut e, k); e },
      W::Mark(x, name) => { let k = self.w(x); let mut e = self.marker("word", name); self.add(&mut e, k); e },
      W::Pos(p, x) => {
        let mut e = self.el("word_pos");
        let pk = self.p(p);
        let k = self.w(x);
        let mut h = self.el("pos");
        self.add(&mut h, pk);
        self.add(&mut e, h);
        self.add(&mut e, k);
        e
      },
      W::Math(m) => { let k = self.m(m); let mut e = self.el("word_math"); self.add(&mut e, k); e },
    };
    self.by_ref("word", e)
  }
  fn p(&mut self, p: &P) -> Node {
    let e = match p {
      P::Ref(name) => return self.reference("pos", name),
      P::Tag(t) => { let mut e = self.el("pos"); e.set_attribute("tag", TAGS[*t]).unwrap(); e },
      P::Not(x) => { let k = self.p(x); let mut e = self.el("pos_not"); self.add(&mut e, k); e },
      P::Or(v) => { let mut e = self.el("pos_or"); for x in v { let k = self.p(x); self.add(&mut e, k); } e },
    };
    self.by_ref("pos", e)
  }
  fn m(&mut self, m: &M) -> Node {
    let e = match m {
      M::Ref(name) => return self.reference("math", name),
      M::Any => self.el("math_any"),
      M::Mark(x, name) => { let k = self.m(x); let mut e = self.marker("math", name); self.add(&mut e, k); e },
      M::Or(v) => { let mut e = self.el("math_or"); for x in v { let k = self.m(x); self.add(&mut e, k); } e },
      M::Desc(x, kind) => { let k = self.m(x); let mut e = self.el("math_descendant"); e.set_attribute("match_type", DESC_KINDS[*kind]).unwrap(); self.add(&mut e, k); e },
      M::Node(name, text, kids) => {
        let mut e = self.el("math_node");
        if let Some(n) = name { e.set_attribute("name", n.as_str()).unwrap(); }
        if let Some(t) = text {
          let rule = match t { T::Ref(name) => name.to_string(), t => { let k = self.t(t); self.rule("mtext", k) } };
          let mut r = self.el("mtext_ref");
          r.set_attribute("ref", &rule).unwrap();
          self.add(&mut e, r);
        }
        if let Some((v, kind)) = kids {
          let mut c = self.el("math_children");
          c.set_attribute("match_type", KID_KINDS[*kind]).unwrap();
          for x in v { let k = self.m(x); self.add(&mut c, k); }
          self.add(&mut e, c);
        }
        e
      },
    };
    self.by_ref("math", e)
  }
  fn t(&mut self, t: &T) -> Node {
    let e = match t {
      T::Ref(name) => return self.reference("mtext", name),
      T::Any => self.el("mtext_any"),
      T::Lit(s) => { let mut e = self.el("mtext_lit"); e.set_attribute("str", s).unwrap(); e },
      T::Not(x) => { let k = self.t(x); let mut e = self.el("mtext_not"); self.add(&mut e, k); e },
      T::Or(v) => { let mut e = self.el("mtext_or"); for x in v { let k = self.t(x); self.add(&mut e, k); } e },
    };
    self.by_ref("mtext", e)
  }
}

/// the pattern file with one sequence rule "top"
fn load(s: &S, defs: &Defs, refs: bool, noise: bool, defs_first: bool) -> PatternFile {
  let (d, mut root) = Dom::new("pattern_file");
  let mut w = Writer { d: &d, refs, noise, rules: Vec::new(), n: 0 };
  let body = w.s(s);
  for (n, x) in &defs.s { let k = w.s(x); w.named("seq", n, k) }
  for (n, x) in &defs.w { let k = w.w(x); w.named("word", n, k) }
  for (n, x) in &defs.p { let k = w.p(x); w.named("pos", n, k) }
  for (n, x) in &defs.m { let k = w.m(x); w.named("math", n, k) }
  for (n, x) in &defs.t { let k = w.t(x); w.named("mtext", n, k) }
  let mut top = w.el("seq_rule");
  top.set_attribute("name", "top").unwrap();
  if noise { let mut m = w.el("meta"); let mut de = Node::new("description", None, &d.doc).unwrap(); de.append_text(" about it\n").unwrap(); w.add(&mut m, de); w.add(&mut top, m); }
  w.add(&mut top, body);
  let mut rules: Vec<Node> = w.rules.drain(..).collect();
  if defs_first { rules.push(top); } else { rules.insert(0, top); rules[1..].reverse(); }
  for r in rules { w.add(&mut root, r); }
  let path = publish(&d.doc, "patterns.xml");
  match PatternFile::load(&path) {
    Ok(p) => p,
    Err(e) => { emit_str(&e); check(false, "a well-formed pattern file loads"); end() },
  }
}

/// what a match says: marker name, whether it has the tags, range or node, inner matches
pub struct R { name: &'static str, at: At, sub: Vec<R> }
pub enum At { Text(usize, usize), Math(RoNode) }

pub struct Tree { label: usize, from: usize, to: usize, kids: Vec<Tree> }

/// the sentence a pattern is matched against
pub struct Sent { words: Vec<String>, pos: Vec<usize>, nodes: Vec<Option<RoNode>>, starts: Vec<usize>, ends: Vec<usize>, trees: Vec<Tree>, defs: Defs }

fn kids(n: RoNode) -> Vec<RoNode> { n.get_child_nodes().into_iter().filter(|c| c.is_element_node()).collect() }

impl Sent {
  fn phrases<'t>(&self, t: &'t Tree, label: usize, from: usize, out: &mut Vec<usize>) {
    for k in &t.kids { self.phrases(k, label, from, out); }
    if t.label == label && t.from == from { out.push(t.to); }
  }
  /// where the match of `s` at word `at` ends, and its markers
  fn s(&self, s: &S, at: usize) -> Option<(usize, Vec<R>)> {
    match s {
      S::Ref(name) => { reach("reference to a rule"); self.s(def(&self.defs.s, name), at) },
      S::Word(w) => if at < self.words.len() { self.w(w, at).map(|r| (at + 1, r)) } else { None },
      S::Seq(v) => {
        let mut out = Vec::new();
        let mut p = at;
        for x in v { let (e, r) = self.s(x, p)?; p = e; out.extend(r); }
        Some((p, out))
      },
      S::Mark(x, name) => {
        let (e, r) = self.s(x, at)?;
        if e == at { reach("marker around an empty sequence"); return Some((e, r)); }
        Some((e, vec![R { name, at: At::Text(self.starts[at], self.ends[e - 1]), sub: r }]))
      },
      S::Or(v, kind) => {
        let all: Vec<(usize, Vec<R>)> = v.iter().filter_map(|x| self.s(x, at)).collect();
        if all.is_empty() { return if *kind == 2 { reach("optional sequence left out"); Some((at, Vec::new())) } else { None }; }
        match kind {
          0 => all.into_iter().next(),
          3 => {
            let mut best: Option<(usize, Vec<R>)> = None;
            for (e, r) in all { if best.as_ref().map_or(true, |b| e > b.0) { best = Some((e, r)); } }
            best
          },
          _ => {
            let end = all.iter().map(|x| x.0).max().unwrap();
            Some((end, all.into_iter().flat_map(|x| x.1).collect()))
          },
        }
      },
      S::Phrase(label, longest, start, end) => {
        let mut ends = Vec::new();
        for t in &self.trees { self.phrases(t, *label, at, &mut ends); }
        ends.sort();
        if *longest { ends.reverse(); }
        for e in ends {
          let mut out = Vec::new();
          if let Some((x, less)) = start {
            match self.s(x, at) {
              Some((f, r)) if !*less || f <= e => out.extend(r),
              _ => continue,
            }
          }
          if let Some(x) = end {
            let mut hit = None;
            for f in at..e { if let Some((g, r)) = self.s(x, f) { if g == e { hit = Some(r); break; } } }
            match hit { Some(r) => out.extend(r), None => continue }
          }
          reach("phrase");
          return Some((e, out));
        }
        None
      },
    }
  }
  fn w(&self, w: &W, at: usize) -> Option<Vec<R>> {
    match w {
      W::Ref(name) => self.w(def(&self.defs.w, name), at),
      W::Lit(t) => if *t == self.words[at] { Some(Vec::new()) } else { None },
      W::Any => Some(Vec::new()),
      W::Or(v) => v.iter().find_map(|x| self.w(x, at)),
      W::Not(x) => if self.w(x, at).is_some() { None } else { reach("negated word"); Some(Vec::new()) },
      W::Mark(x, name) => self.w(x, at).map(|r| vec![R { name, at: At::Text(self.starts[at], self.ends[at]), sub: r }]),
      W::Pos(p, x) => if self.p(p, self.pos[at]) { self.w(x, at) } else { None },
      W::Math(m) => {
        let n = self.nodes[at]?;
        let c = *kids(n).first()?;
        let c = if c.get_name() == "semantics" { *kids(c).first()? } else { c };
        self.m(m, c)
      },
    }
  }
  fn p(&self, p: &P, tag: usize) -> bool {
    match p { P::Ref(name) => self.p(def(&self.defs.p, name), tag), P::Tag(t) => *t == tag, P::Not(x) => !self.p(x, tag), P::Or(v) => v.iter().any(|x| self.p(x, tag)) }
  }
  fn m(&self, m: &M, n: RoNode) -> Option<Vec<R>> {
    match m {
      M::Ref(name) => self.m(def(&self.defs.m, name), n),
      M::Any => Some(Vec::new()),
      M::Mark(x, name) => self.m(x, n).map(|r| vec![R { name, at: At::Math(n), sub: r }]),
      M::Or(v) => v.iter().find_map(|x| self.m(x, n)),
      M::Desc(x, kind) => {
        let mut hits = Vec::new();
        self.desc(x, n, &mut hits);
        if hits.is_empty() { return if *kind == 2 { Some(Vec::new()) } else { None }; }
        if hits.len() > 1 { reach("several descendants"); }
        if *kind == 0 { hits.truncate(1); }
        Some(hits.into_iter().flatten().collect())
      },
      M::Node(name, text, ks) => {
        if let Some(x) = name { if n.get_name() != *x { return None; } }
        if let Some(t) = text {
          let c = n.get_child_nodes();
          let s = if c.is_empty() { String::new() } else if c.len() == 1 && is_text(c[0]) { c[0].get_content() } else { return None };
          if !self.t(t, &s) { return None; }
          reach("symbol");
        }
        if let Some((v, kind)) = ks {
          let c = kids(n);
          if c.len() < v.len() { return None; }
          let spare = c.len() - v.len();
          let from: Vec<usize> = match kind { 0 => vec![0], 1 => if spare == 0 { vec![0] } else { vec![] }, 2 => vec![spare], _ => (0..spare + 1).collect() };
          for f in from {
            let all: Vec<Option<Vec<R>>> = v.iter().enumerate().map(|(i, x)| self.m(x, c[f + i])).collect();
            if all.iter().all(|x| x.is_some()) { reach("children"); return Some(all.into_iter().flat_map(|x| x.unwrap()).collect()); }
          }
          return None;
        }
        Some(Vec::new())
      },
    }
  }
  fn desc(&self, m: &M, n: RoNode, out: &mut Vec<Vec<R>>) {
    if let Some(r) = self.m(m, n) { out.push(r); }
    for c in kids(n) { self.desc(m, c, out); }
  }
  fn t(&self, t: &T, s: &str) -> bool {
    match t { T::Ref(name) => self.t(def(&self.defs.t, name), s), T::Any => true, T::Lit(x) => x == s, T::Not(x) => !self.t(x, s), T::Or(v) => v.iter().any(|x| self.t(x, s)) }
  }
}

fn same(got: &[Match], want: &[R]) -> bool {
  if got.len() != want.len() { return false; }
  for (g, w) in got.iter().zip(want) {
    let (name, tags, ok) = match (&g.marker, &w.at) {
      (MarkerEnum::Text(t), At::Text(s, e)) => (&t.marker.name, &t.marker.tags, t.range.start == *s && t.range.end == *e),
      (MarkerEnum::Math(m), At::Math(n)) => (&m.marker.name, &m.marker.tags, m.node == *n),
      (MarkerEnum::Text(t), _) => (&t.marker.name, &t.marker.tags, false),
      (MarkerEnum::Math(m), _) => (&m.marker.name, &m.marker.tags, false),
    };
    if !ok || name != w.name { return false; }
    let tags_ok = if w.name == "m" { tags.len() == 2 && tags[0] == "t" && tags[1] == "u v" } else { tags.is_empty() };
    if !tags_ok || !same(&g.sub_matches, &w.sub) { return false; }
  }
  true
}
fn count(m: &Match) -> usize { 1 + m.sub_matches.iter().map(count).sum::<usize>() }

/// builds the sentence, matches, compares.  `math` puts the contents of a formula below a node
fn run(s: &S, words: Vec<Option<String>>, pos: Vec<usize>, psg: PSGNode, trees: Vec<Tree>, math: &dyn Fn(&Dom, &mut Node), refs: bool, noise: bool, first: bool) {
  run_with(s, Defs::default(), words, pos, psg, trees, math, refs, noise, first)
}
fn run_with(s: &S, defs: Defs, words: Vec<Option<String>>, pos: Vec<usize>, psg: PSGNode, trees: Vec<Tree>, math: &dyn Fn(&Dom, &mut Node), refs: bool, noise: bool, first: bool) {
  let (d, mut root) = Dom::new("p");
  root.append_text("é ").unwrap();
  for (i, w) in words.iter().enumerate() {
    if i > 0 { root.append_text(" ").unwrap(); }
    match w {
      Some(t) => root.append_text(t).unwrap(),
      None => { let mut m = d.el(&mut root, "math"); math(&d, &mut m); },
    }
  }
  let ro = d.root();
  let mut n = HashMap::new();
  n.insert("math".to_string(), SpecialTagsOption::Normalize("formülä".to_string()));
  let dnm = DNM::new(ro, DNMParameters { special_tag_name_options: n, wrap_tokens: false, ..DNMParameters::default() });
  let len = dnm.plaintext.chars().count();
  let range = DNMRange { start: 2, end: len, dnm: &dnm };
  let text = range.get_plaintext();
  let mut sent = Sent { words: vec![], pos: pos.clone(), nodes: vec![], starts: vec![], ends: vec![], trees, defs };
  let mut sw = Vec::new();
  let mut b = 0;
  let mut c = 2;
  let mut ms = kids(ro).into_iter();
  for (i, w) in words.iter().enumerate() {
    let t = match w { Some(t) => t.clone(), None => "formülä".to_string() };
    let k = t.chars().count();
    let e = b + t.len();
    sw.push(Word::new(&text[b..e], POSES[pos[i]], b, e, i));
    sent.nodes.push(if w.is_none() { ms.next() } else { None });
    sent.starts.push(c);
    sent.ends.push(c + k);
    sent.words.push(t);
    b = e + 1;
    c += k + 1;
  }
  let pf = load(s, &sent.defs, refs, noise, first);
  let sentence = Sentence::build(text, sw, Some(psg));
  let got = match_sentence(&pf, &sentence, &range, "top");
  let got = match got { Ok(g) => g, Err(_) => { check(false, "matching a known rule works"); end() } };
  let mut want = Vec::new();
  for at in 0..words.len() { if let Some((_, r)) = sent.s(s, at) { want.extend(r); } }
  emit(1, got.len() as u64);
  check(same(&got, &want), "the matches are those of the pattern, with their markers in place");
  for g in &got {
    if count(g) > 1 { reach("nested markers"); }
    check(g.get_marker_list().len() == count(g), "the marker list has every marker of a match");
  }
  if want.is_empty() { reach("no match"); }
}
fn flat(n: usize) -> (PSGNode, Vec<Tree>) {
  (PSGNode::parent(Phrase::S, (0..n).map(PSGNode::Leaf).collect()), vec![])
}
fn nothing(_: &Dom, _: &mut Node) {}
const LETTERS: &[char] = &['a', 'b', 'é'];

fn words(n: usize) -> Vec<Option<String>> { (0..n).map(|_| Some(string(LETTERS, 1))).collect() }

/// sequence patterns.  params: depth, alternatives, words, refs, fewer leaves
pub fn seqs() {
  fn gen(depth: usize, width: usize) -> S {
    let leaves = if param(4) == 1 { 2 } else { 3 };
    let k = if depth == 0 { pick(leaves) } else { pick(leaves + 3) };
    let k = if k >= leaves { k - leaves + 3 } else { k };
    match k {
      0 => S::Word(W::Mark(Box::new(W::Lit(string(&['a', 'é'], 1))), "w")),
      1 => S::Word(W::Any),
      2 => S::Word(W::Lit("a".to_string())),
      3 => { let n = 1 + pick(width); S::Seq((0..n).map(|_| gen(depth - 1, width)).collect()) },
      4 => { let kind = pick(4); let n = 1 + pick(width); S::Or((0..n).map(|_| gen(depth - 1, width)).collect(), kind) },
      _ => S::Mark(Box::new(gen(depth - 1, width)), "m"),
    }
  }
  let s = gen(param(0), param(1));
  let n = param(2);
  let ws = words(n);
  let (psg, trees) = flat(n);
  let refs = param(3) == 1;
  let first = refs && flag();
  run(&s, ws, vec![0; n], psg, trees, &nothing, refs, refs, first);
}

/// word patterns and tags.  params: depth, refs
pub fn word_patterns() {
  fn gen_p(depth: usize) -> P {
    match if depth == 0 { pick(2) } else { pick(4) } {
      k @ (0 | 1) => P::Tag(k),
      2 => P::Not(Box::new(gen_p(depth - 1))),
      _ => P::Or(vec![gen_p(0), gen_p(depth - 1)]),
    }
  }
  fn gen(depth: usize) -> W {
    match if depth == 0 { pick(2) } else { pick(6) } {
      0 => W::Lit(string(LETTERS, 1)),
      1 => W::Any,
      2 => W::Not(Box::new(gen(depth - 1))),
      3 => W::Or(vec![gen(0), gen(depth - 1)]),
      4 => W::Mark(Box::new(gen(depth - 1)), "m"),
      _ => W::Pos(gen_p(depth - 1), Box::new(gen(depth - 1))),
    }
  }
  let s = S::Mark(Box::new(S::Word(gen(param(0)))), "x");
  let (psg, trees) = flat(2);
  let refs = param(1) == 1;
  let first = refs && flag();
  let ws = words(2);
  run(&s, ws, vec![pick(3), 0], psg, trees, &nothing, refs, refs, first);
}

/// phrases.  params: words, start condition allowed, end condition allowed, depth of the phrase tree
pub fn phrases() {
  /// a node of the phrase tree over the words from..to
  fn gen(from: usize, to: usize, depth: usize) -> (PSGNode, Vec<Tree>) {
    if depth == 0 { return (PSGNode::parent(Phrase::S, (from..to).map(PSGNode::Leaf).collect()), vec![]); }
    // cut the words into parts; each is a leaf or a phrase
    let mut nodes = Vec::new();
    let mut trees = Vec::new();
    let mut at = from;
    while at < to {
      let k = pick(to - at + 1);
      if k == 0 { nodes.push(PSGNode::Leaf(at)); at += 1; continue; }
      let label = pick(2);
      let (inner, ts) = gen(at, at + k, depth - 1);
      let content = match inner { PSGNode::Parent(c) => c, _ => unreachable!() };
      let mut v: Vec<PSGNode> = Vec::new();
      // relabel: the children of the generated node below a labelled one
      for c in content.into_children() { v.push(c); }
      nodes.push(PSGNode::parent(PHRASES[label], v));
      trees.push(Tree { label, from: at, to: at + k, kids: ts });
      at += k;
    }
    (PSGNode::parent(Phrase::S, nodes), trees)
  }
  let n = param(0);
  let (psg, trees) = gen(0, n, param(3));
  let cond = |m: &'static str| -> S {
    match pick(3) {
      0 => S::Word(W::Mark(Box::new(W::Lit(string(&['a', 'b'], 1))), m)),
      1 => S::Seq(vec![S::Word(W::Lit("a".to_string())), S::Mark(Box::new(S::Word(W::Any)), m)]),
      _ => S::Phrase(1, flag(), None, None),
    }
  };
  let start = if param(1) == 1 && flag() { Some((Box::new(cond("s")), flag())) } else { None };
  let end = if param(2) == 1 && flag() { Some(Box::new(cond("e"))) } else { None };
  let s = S::Mark(Box::new(S::Phrase(0, flag(), start, end)), "m");
  let ws: Vec<Option<String>> = (0..n).map(|_| Some(string(&['a', 'b'], 1))).collect();
  run(&s, ws, vec![0; n], psg, trees, &nothing, false, param(1) == 0, false);
}

/// formulas.  params: depth of the pattern, depth of the formula, refs, other shapes, width
pub fn formulas() {
  fn gen_t(depth: usize) -> T {
    match if depth == 0 { pick(2) } else { pick(4) } {
      0 => T::Lit(string(&['x', 'é', ' '], 1)),
      1 => T::Any,
      2 => T::Not(Box::new(gen_t(depth - 1))),
      _ => T::Or(vec![gen_t(0), gen_t(depth - 1)]),
    }
  }
  fn gen(depth: usize) -> M {
    match if depth == 0 { pick(2) } else { pick(7) } {
      0 => M::Node(Some(format!("m{}", ch(&['i', 'o']))), Some(T::Lit(string(&['x', 'é'], 1))), None),
      1 => M::Mark(Box::new(M::Node(Some(if flag() { format!("m{}", ch(&['i', 'o'])) } else { "mrow".to_string() }), None, None)), "m"),
      2 => M::Or(vec![gen(0), gen(depth - 1)]),
      3 => { let kind = pick(4); M::Node(None, None, Some((vec![gen(depth - 1)], kind))) },
      4 => { let kind = pick(4); M::Node(Some("mrow".to_string()), None, Some((vec![gen(0), gen(depth - 1)], kind))) },
      5 => { let kind = pick(3); M::Desc(Box::new(gen(depth - 1)), kind) },
      _ => M::Node(None, Some(gen_t(1)), None),
    }
  }
  // the names of other elements, names that begin or end like those the rules know
  const ODD: &[&str] = &["mi", "mo", "annotation", "semantics", "semi", "mover", "Mi", "mrow"];
  fn tree(d: &Dom, p: &mut Node, depth: usize, width: usize) {
    for _ in 0..width {
      match pick(if depth > 0 { 3 } else { 2 }) {
        0 => { let n = if param(3) == 1 { one_of(ODD).to_string() } else { format!("m{}", ch(&['i', 'o'])) }; let mut e = d.el(p, &n); let t = string(&['x', 'é', ' '], 1); e.append_text(&t).unwrap(); },
        1 => { let mut e = d.el(p, "mi"); d.comment(p, "c"); if depth == 0 { if flag() { e.append_text("x").unwrap() } d.comment(&mut e, "c"); } p.append_text(" ").unwrap(); },
        _ => { let mut r = d.el(p, "mrow"); let k = pick(param(4) + 1); tree(d, &mut r, depth - 1, k); },
      }
    }
  }
  let (depth, refs) = (param(1), param(2) == 1);
  let p = gen(param(0));
  let first = refs && flag();
  let s = S::Word(W::Math(M::Mark(Box::new(p), "x")));
  let shape = if param(3) == 0 { 0 } else { 1 + pick(3) };
  let math = |d: &Dom, m: &mut Node| {
    match shape {
      0 => { let mut s = d.el(m, "semantics"); let mut r = d.el(&mut s, "mrow"); tree(d, &mut r, depth, param(4)); d.el(&mut s, "annotation"); },
      1 => { let mut r = d.el(m, "mrow"); tree(d, &mut r, depth.saturating_sub(1), param(4)); },
      // without an annotation
      2 => { let mut s = d.el(m, "semantics"); let mut r = d.el(&mut s, "mrow"); tree(d, &mut r, depth.saturating_sub(1), param(4)); },
      _ => { d.comment(m, "empty"); if flag() { d.el(m, "semantics"); } },
    }
  };
  let (psg, trees) = flat(2);
  run(&s, vec![Some("é".to_string()), None], vec![0, 0], psg, trees, &math, refs, refs, first);
}

/// rules used by several others, or by themselves.  params: p0 what, p1 words or depth of the formula, p2 width
pub fn rules() {
  let w = |x: W| S::Word(x);
  let (what, n) = (param(0), param(1));
  let first = flag();
  let mut defs = Defs::default();
  let (psg, trees) = flat(if what == 1 { 1 } else { n });
  match what {
    0 => {
      // a list of items
      let more = S::Seq(vec![w(W::Mark(Box::new(W::Ref("item")), "i")), S::Ref("list")]);
      let last = w(W::Mark(Box::new(W::Ref("last")), "l"));
      defs.s.push(("list", S::Or(if flag() { vec![more, last] } else { vec![last, more] }, pick(4))));
      defs.w.push(("item", W::Lit(string(LETTERS, 1))));
      defs.w.push(("last", if flag() { W::Ref("item") } else { W::Lit(string(LETTERS, 1)) }));
      run_with(&S::Mark(Box::new(S::Ref("list")), "m"), defs, words(n), vec![0; n], psg, trees, &nothing, false, false, first);
    },
    1 => {
      // a formula all of whose rows are of the kind
      let kind = pick(4);
      let leaf = M::Node(Some("mi".to_string()), Some(T::Ref("x")), None);
      let row = M::Node(Some("mrow".to_string()), None, Some((vec![M::Mark(Box::new(M::Ref("tree")), "t")], kind)));
      defs.m.push(("tree", M::Or(if flag() { vec![leaf, row] } else { vec![row, leaf] })));
      defs.t.push(("x", T::Or(vec![T::Ref("y"), T::Lit("x".to_string())])));
      defs.t.push(("y", T::Lit("é".to_string())));
      fn tree(d: &Dom, p: &mut Node, depth: usize) {
        for _ in 0..pick(param(2) + 1) {
          if depth == 0 || flag() { let mut e = d.el(p, "mi"); e.append_text(&string(&['x', 'é', 'z'], 1)).unwrap() } else { let mut r = d.el(p, "mrow"); tree(d, &mut r, depth - 1) }
        }
      }
      let math = |d: &Dom, m: &mut Node| { let mut r = d.el(m, "mrow"); tree(d, &mut r, n) };
      run_with(&w(W::Math(M::Mark(Box::new(M::Ref("tree")), "m"))), defs, vec![None], vec![0], psg, trees, &math, false, false, first);
    },
    _ => {
      // rules that share others
      defs.s.push(("pair", S::Seq(vec![w(W::Ref("noun")), w(W::Mark(Box::new(W::Ref("noun")), "n"))])));
      defs.w.push(("noun", W::Pos(P::Ref("tag"), Box::new(W::Ref("word")))));
      defs.w.push(("word", W::Or(vec![W::Lit("a".to_string()), W::Not(Box::new(W::Lit(string(LETTERS, 1))))])));
      defs.p.push(("tag", P::Or(vec![P::Tag(0), P::Not(Box::new(P::Ref("verb")))])));
      defs.p.push(("verb", P::Tag(pick(3))));
      let top = S::Or(vec![S::Seq(vec![S::Ref("pair"), S::Mark(Box::new(S::Ref("pair")), "m")]), S::Mark(Box::new(S::Ref("pair")), "p")], pick(4));
      let tags = (0..n).map(|_| pick(3)).collect();
      run_with(&top, defs, words(n), tags, psg, trees, &nothing, false, false, first);
    },
  }
}

/// errors of match_sentence
pub fn match_errors() {
  let s = S::Word(W::Any);
  let pf = load(&s, &Defs::default(), false, false, false);
  let (d, mut root) = Dom::new("p");
  root.append_text("a").unwrap();
  let dnm = DNM::new(d.root(), DNMParameters::default());
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let psg = match pick(3) { 0 => None, 1 => Some(PSGNode::Leaf(0)), k => { let _ = k; Some(flat(1).0) } };
  let good = matches!(psg, Some(PSGNode::Parent(_)));
  let name = one_of(&["top", "Top", ""]);
  let sentence = Sentence::build(text, vec![Word::new(text, POS::NN, 0, 1, 0)], psg);
  let got = match_sentence(&pf, &sentence, &range, name);
  check(got.is_ok() == (good && name == "top"), "an unknown rule or a missing phrase tree is reported");
  if got.is_err() { reach("error"); }
  if let Ok(g) = got { check(g.is_empty(), "without markers there is nothing to report"); }
}

// ---- loading ----

/// rules of all kinds with symbolic names and references.  params: number of rules, number of kinds,
/// 1: names of any length and case, also with blanks, number of other rules in front
pub fn load_names() {
  const KINDS: &[&str] = &["word", "seq", "pos", "math", "mtext"];
  let (d, mut root) = Dom::new("pattern_file");
  let n = param(0);
  let mut defs: Vec<(usize, String)> = Vec::new();
  let mut uses: Vec<(usize, String)> = Vec::new();
  let mut about: Vec<String> = Vec::new();
  let free = |k: usize, r: &mut Node| match k {
    0 => { d.el(r, "word_any"); },
    1 => { let mut w = d.el(r, "seq_word"); d.el(&mut w, "word_any"); },
    2 => { let mut p = d.el(r, "pos"); p.set_attribute("tag", "NN").unwrap(); },
    3 => { d.el(r, "math_any"); },
    _ => { d.el(r, "mtext_any"); },
  };
  let before = param(3);
  for i in 0..before {
    let name = format!("n{}", i);
    let mut r = d.el(&mut root, &format!("{}_rule", KINDS[i % 5]));
    r.set_attribute("name", &name).unwrap();
    let mut m = d.el(&mut r, "meta");
    let mut de = d.el(&mut m, "description");
    de.append_text(&name).unwrap();
    free(i % 5, &mut r);
    about.push(name.clone());
    defs.push((i % 5, name));
    if i > 30 { reach("many rules") }
  }
  let some_name = || if param(2) == 1 { string_upto(&['a', 'A', ' ', 'é'], 2) } else { string(&['a', 'b'], 1) };
  for i in 0..n {
    let k = pick(param(1));
    let name = some_name();
    let mut r = d.el(&mut root, &format!("{}_rule", KINDS[k]));
    r.set_attribute("name", &name).unwrap();
    let summary = if flag() { let mut m = d.el(&mut r, "meta"); let mut de = d.el(&mut m, "description"); de.append_text(&format!("\n  rule {} ", i)).unwrap(); format!("rule {}", i) } else { String::new() };
    about.push(summary);
    if flag() {
      // one of the symbolic names, or the first or last of its kind or of another in front
      let u = if before > 0 && flag() { format!("n{}", [0, 1, 2, 3, 4, before - 5, before - 4, before - 3, before - 2, before - 1, before][pick(11)]) } else { some_name() };
      let mut b = d.el(&mut r, &format!("{}_ref", KINDS[k]));
      b.set_attribute("ref", &u).unwrap();
      uses.push((k, u));
    } else { free(k, &mut r) }
    defs.push((k, name));
  }
  let n = n + before;
  let mut good = true;
  for i in 0..n { for j in 0..i { if defs[i].0 == defs[j].0 && defs[i].1 == defs[j].1 { good = false; reach("two rules of one name"); } } }
  for (k, u) in &uses { if !defs.iter().any(|(dk, dn)| dk == k && dn == u) { good = false; reach("reference without definition"); } }
  let path = publish(&d.doc, "names.xml");
  let got = PatternFile::load(&path);
  check(got.is_ok() == good, "a file loads exactly if rule names are unique and references defined");
  if let Ok(pf) = got {
    reach("rules");
    let mut counts = [0usize; 5];
    for (i, (k, name)) in defs.iter().enumerate() {
      counts[*k] += 1;
      let (map, rule): (&HashMap<String, usize>, &dyn Fn(usize) -> String) = match k {
        0 => (&pf.word_rule_names, &|p| pf.word_rules[p].description.get_summary().to_string()),
        1 => (&pf.sequence_rule_names, &|p| pf.sequence_rules[p].description.get_summary().to_string()),
        2 => (&pf.pos_rule_names, &|p| pf.pos_rules[p].description.get_summary().to_string()),
        3 => (&pf.math_rule_names, &|p| pf.math_rules[p].description.get_summary().to_string()),
        _ => (&pf.mtext_rule_names, &|p| pf.mtext_rules[p].description.get_summary().to_string()),
      };
      match map.get(name) {
        Some(p) => check(rule(*p) == about[i], "a rule is found under its name"),
        None => check(false, "a rule is found under its name"),
      }
    }
    check(pf.word_rules.len() == counts[0] && pf.sequence_rules.len() == counts[1] && pf.pos_rules.len() == counts[2] && pf.math_rules.len() == counts[3] && pf.mtext_rules.len() == counts[4], "exactly the defined rules are loaded");
  }
}

struct B<'a> { d: &'a Dom }
impl<'a> B<'a> {
  fn e(&self, p: &mut Node, name: &str, attr: &[(&str, &str)]) -> Node {
    let mut e = self.d.el(p, name);
    for (k, v) in attr { e.set_attribute(k, v).unwrap(); }
    e
  }
}

/// stray text and comments between the elements of a pattern file.  params: where, characters
pub fn load_text() {
  let (d, mut root) = Dom::new("pattern_file");
  let b = B { d: &d };
  let t = string_upto(&['x', ' ', '\n', '\u{a0}', 'é', '\u{200b}', '\u{81}'], param(0));
  let place = pick(9);
  let section = flag();
  let put = |at: usize, n: &mut Node| if at == place && !t.is_empty() { if section { d.cdata(n, &t); reach("character data section") } else { n.append_text(&t).unwrap() } };
  let mut meta = d.el(&mut root, "meta");
  let mut de = d.el(&mut meta, "description");
  put(0, &mut meta);
  let blank = t.chars().all(|c| c.is_whitespace());
  if place == 1 && flag() { d.comment(&mut root, "x"); }
  put(1, &mut root);
  put(2, &mut de);
  let mut r = b.e(&mut root, "seq_rule", &[("name", "r")]);
  put(3, &mut r);
  let mut sq = d.el(&mut r, "seq_seq");
  put(4, &mut sq);
  let mut sw = d.el(&mut sq, "seq_word");
  d.comment(&mut sw, "x");
  put(5, &mut sw);
  let mut w = d.el(&mut sw, "word");
  put(6, &mut w);
  let mut sw2 = d.el(&mut sq, "seq_word");
  let mut wm = d.el(&mut sw2, "word_math");
  let mut ma = d.el(&mut wm, "math_any");
  put(7, &mut ma);
  put(8, &mut wm);
  let path = publish(&d.doc, "text.xml");
  let got = PatternFile::load(&path);
  let free = place == 2 || place == 6;
  check(got.is_ok() == (blank || free), "text counts as an error exactly where only elements belong");
  if !blank && !free { reach("stray text"); }
  if let Ok(pf) = got {
    reach("text where it belongs");
    check(pf.description.get_summary() == if place == 2 { t.trim() } else { "" }, "the description is the trimmed text");
    let p = pf.sequence_rule_names["r"];
    check(p == 0 && pf.sequence_rules.len() == 1, "the rule is there");
  }
}

/// text (param(0) characters) in front of or behind the children of any element of a full file:
/// refused unless blank, except where the element holds text
pub fn load_text_any() {
  let (d, mut root) = Dom::new("pattern_file");
  let b = B { d: &d };
  let t = string_upto(&['x', ' ', '\n', '\u{a0}', 'é', '\u{200b}', '\u{81}'], param(0));
  assume(!t.is_empty());
  let behind = flag();
  let place = pick(38);
  let seen = std::cell::Cell::new(0usize);
  // an element with its children; counts the places
  let el = |p: &mut Node, name: &str, attrs: &[(&str, &str)], f: &dyn Fn(&mut Node)| {
    let mut n = b.e(p, name, attrs);
    let me = seen.get();
    seen.set(me + 1);
    if me == place && !behind { n.append_text(&t).unwrap(); }
    f(&mut n);
    if me == place && behind { n.append_text(&t).unwrap(); }
  };
  let none = |_: &mut Node| {};
  el(&mut root, "word_rule", &[("name", "w")], &|r| el(r, "word_or", &[], &|o| {
    el(o, "word_any", &[], &none);
    el(o, "word_ref", &[("ref", "w")], &none);
    el(o, "word_not", &[], &|x| el(x, "word_any", &[], &none));
    el(o, "word_marker", &[("name", "n")], &|x| el(x, "word_any", &[], &none));
    el(o, "word_pos", &[], &|x| { el(x, "pos", &[], &|y| el(y, "pos_not", &[], &|z| el(z, "pos_ref", &[("ref", "p")], &none))); el(x, "word_any", &[], &none); });
    el(o, "word_math", &[], &|x| el(x, "math_ref", &[("ref", "m")], &none));
  }));
  el(&mut root, "pos_rule", &[("name", "p")], &|r| el(r, "pos_or", &[], &|o| el(o, "pos", &[("tag", "NN")], &none)));
  el(&mut root, "math_rule", &[("name", "m")], &|r| el(r, "math_or", &[], &|o| {
    el(o, "math_descendant", &[("match_type", "first")], &|x| el(x, "math_marker", &[("name", "n")], &|y| el(y, "math_any", &[], &none)));
    el(o, "math_node", &[], &|x| { el(x, "mtext_ref", &[("ref", "t")], &none); el(x, "math_children", &[("match_type", "exact")], &|y| { b.e(y, "math_any", &[]); }); });
  }));
  el(&mut root, "mtext_rule", &[("name", "t")], &|r| el(r, "mtext_or", &[], &|o| { el(o, "mtext_lit", &[("str", "x")], &none); el(o, "mtext_not", &[], &|x| el(x, "mtext_any", &[], &none)); }));
  el(&mut root, "seq_rule", &[("name", "s")], &|r| el(r, "seq_or", &[], &|o| {
    el(o, "seq_marker", &[("name", "n")], &|x| el(x, "seq_ref", &[("ref", "s")], &none));
    el(o, "phrase", &[("tag", "NP")], &|x| { el(x, "starts_with_seq", &[], &|y| { b.e(y, "seq_ref", &[("ref", "s")]); }); el(x, "ends_with_seq", &[], &|y| { b.e(y, "seq_ref", &[("ref", "s")]); }); });
  }));
  assert!(seen.get() == 38);
  emit(0, seen.get() as u64);
  let blank = t.chars().all(|c| c.is_whitespace());
  let got = PatternFile::load(&publish(&d.doc, "text.xml"));
  check(got.is_ok() == blank, "text other than blanks is refused inside every element that holds elements only");
  if blank { reach("blank text anywhere"); } else { reach("stray text anywhere"); }
}

/// one defect in an otherwise valid file
pub fn load_faults() {
  let (d, mut root) = Dom::new("pattern_file");
  let b = B { d: &d };
  let f = pick(65);
  if f == 1 { let mut m = d.el(&mut root, "meta"); d.el(&mut m, "title"); }
  if f == 2 { let mut m = d.el(&mut root, "meta"); d.el(&mut m, "description"); d.el(&mut m, "description"); }
  if f == 3 { d.el(&mut root, "meta"); d.el(&mut root, "meta"); }
  if f == 4 { d.el(&mut root, "rule"); }
  if f == 5 { let mut m = d.el(&mut root, "meta"); let mut x = d.el(&mut m, "description"); d.el(&mut x, "b"); }
  // word rule
  let mut r = d.el(&mut root, "word_rule");
  if f != 6 { r.set_attribute("name", "w").unwrap(); }
  if f == 7 { d.el(&mut r, "meta"); d.el(&mut r, "meta"); }
  if f == 8 { d.el(&mut r, "word_any"); }
  if f != 9 {
    let mut o = d.el(&mut r, if f == 10 { "seq_or" } else { "word_or" });
    let mut w = d.el(&mut o, "word");
    if f == 11 { d.el(&mut w, "b"); } else { w.append_text("a").unwrap(); if f == 12 { d.comment(&mut w, "c"); w.append_text("b").unwrap(); } }
    let mut n = d.el(&mut o, "word_not");
    if f != 13 { d.el(&mut n, "word_any"); }
    if f == 14 { d.el(&mut n, "word_any"); }
    let mut m = d.el(&mut o, "word_marker");
    if f != 15 { m.set_attribute("name", "n").unwrap(); }
    if f != 16 { d.el(&mut m, "word_any"); }
    let mut wp = d.el(&mut o, "word_pos");
    if f != 17 { let mut p = d.el(&mut wp, "pos"); b.e(&mut p, if f == 18 { "pso" } else { "pos_ref" }, &[("ref", if f == 19 { "q" } else { "p" })]); if f == 20 { b.e(&mut p, "pos_ref", &[("ref", "p")]); } }
    if f != 21 { d.el(&mut wp, "word_any"); }
    if f == 22 { let mut p = d.el(&mut wp, "pos"); b.e(&mut p, "pos_ref", &[("ref", "p")]); }
    if f == 23 { d.el(&mut wp, "word_any"); }
    let mut wm = d.el(&mut o, "word_math");
    if f != 24 { b.e(&mut wm, if f == 25 { "word_any" } else { "math_ref" }, if f == 26 { &[] } else { &[("ref", "m")] }); }
    let mut wr = b.e(&mut o, "word_ref", &[("ref", if f == 27 { "q" } else { "w" })]);
    if f == 28 { d.el(&mut wr, "word_any"); }
  }
  // pos rule
  let mut r = b.e(&mut root, "pos_rule", &[("name", "p")]);
  let mut o = d.el(&mut r, "pos_or");
  let mut p = b.e(&mut o, "pos", if f == 29 { &[] } else { &[("tag", "NN")] });
  if f == 30 { p.set_attribute("tag", "nn").unwrap(); }
  if f == 31 { d.el(&mut p, "pos"); }
  let mut n = d.el(&mut o, "pos_not");
  if f != 32 { b.e(&mut n, "pos", &[("tag", "VB")]); }
  if f == 33 { b.e(&mut root, "pos_rule", &[("name", "p")]).add_child(&mut { let mut x = Node::new("pos", None, &d.doc).unwrap(); x.set_attribute("tag", "NN").unwrap(); x }).unwrap(); }
  // math rule
  let mut r = b.e(&mut root, "math_rule", &[("name", "m")]);
  let mut o = d.el(&mut r, if f == 34 { "mtext_any" } else { "math_or" });
  if f != 34 {
    let mut a = d.el(&mut o, "math_any");
    if f == 35 { d.el(&mut a, "math_any"); }
    let mut k = d.el(&mut o, "math_marker");
    if f != 36 { k.set_attribute("name", "n").unwrap(); }
    d.el(&mut k, "math_any");
    if f == 37 { d.el(&mut k, "math_any"); }
    let mut x = d.el(&mut o, "math_descendant");
    if f != 38 { x.set_attribute("match_type", if f == 39 { "longest" } else { "first" }).unwrap(); }
    if f != 40 { d.el(&mut x, "math_any"); }
    let mut n = b.e(&mut o, "math_node", &[("name", "mi")]);
    let mut c = d.el(&mut n, "math_children");
    if f != 41 { c.set_attribute("match_type", if f == 42 { "any" } else { "exact" }).unwrap(); }
    if f != 43 { d.el(&mut c, if f == 44 { "word_any" } else { "math_any" }); }
    if f == 45 { let mut c = b.e(&mut n, "math_children", &[("match_type", "exact")]); d.el(&mut c, "math_any"); }
    let mut t = b.e(&mut n, "mtext_ref", &[("ref", if f == 46 { "q" } else { "t" })]);
    if f == 47 { d.el(&mut t, "mtext_any"); }
    if f == 48 { b.e(&mut n, "mtext_ref", &[("ref", "t")]); }
    if f == 49 { d.el(&mut n, "math_any"); }
  }
  // mtext rule
  let mut r = b.e(&mut root, "mtext_rule", &[("name", "t")]);
  let mut o = d.el(&mut r, "mtext_or");
  let mut l = b.e(&mut o, "mtext_lit", if f == 50 { &[] } else { &[("str", "x")] });
  if f == 51 { d.el(&mut l, "mtext_any"); }
  let mut n = d.el(&mut o, if f == 52 { "math_not" } else { "mtext_not" });
  d.el(&mut n, "mtext_any");
  // seq rule
  let mut r = b.e(&mut root, "seq_rule", &[("name", "s")]);
  let mut o = b.e(&mut r, "seq_or", &[("match_type", if f == 53 { "all" } else { "longest" })]);
  let mut h = b.e(&mut o, "phrase", &[]);
  if f != 54 { h.set_attribute("tag", if f == 55 { "np" } else { "NP" }).unwrap(); }
  let mut k = d.el(&mut h, "match_type");
  k.append_text(if f == 56 { "first" } else { "shortest" }).unwrap();
  let st = |h: &mut Node| { let mut x = b.e(h, "starts_with_seq", if f == 57 { &[("containment", "less")] } else { &[("containment", "lessorequal")] }); let mut y = d.el(&mut x, "seq_word"); d.el(&mut y, "word_any"); };
  let en = |h: &mut Node| { let mut x = d.el(h, "ends_with_seq"); let mut y = d.el(&mut x, "seq_word"); d.el(&mut y, "word_any"); };
  st(&mut h);
  en(&mut h);
  if f == 58 { st(&mut h); }
  if f == 59 { en(&mut h); }
  if f == 60 { d.el(&mut h, "contains_seq"); }
  let mut sw = d.el(&mut o, "seq_word");
  if f != 61 { let mut w = d.el(&mut sw, "word_any"); if f == 64 { d.el(&mut w, "word_any"); } }
  let mut sr = b.e(&mut o, "seq_ref", &[("ref", if f == 62 { "q" } else { "s" })]);
  if f == 63 { d.el(&mut sr, "seq_word"); }
  emit(1, f as u64);
  let path = publish(&d.doc, "faults.xml");
  let got = PatternFile::load(&path);
  if f == 0 { reach("valid file"); check(got.is_ok(), "a valid pattern file loads"); }
  else { reach("faulty file"); check(got.is_err(), "a pattern file with a defect is refused"); }
  if let Err(e) = got { emit_str(&e.replace(&root_dir(), "")); }
  check(PatternFile::load(&format!("{}/none.xml", root_dir())).is_err(), "a missing file is refused");
}
fn root_dir() -> String { crate::root() }
