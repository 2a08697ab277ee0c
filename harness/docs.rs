use crate::common::*;
use crate::*;
use libxml::tree::*;
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;
use llamapun::parallel_data::XPathFilteredIterator;
use llamapun::{data, parallel_data};

/// An element of the harness's own tree.
struct El { parent: usize, name: &'static str, toks: Vec<String> }
impl El { fn has(&self, t: &str) -> bool { self.toks.iter().any(|x| x == t) } }

/// element 0 is the root, 1 the body; the rest are symbolic
struct Tree { els: Vec<El> }
impl Tree {
  fn build(n: usize, names: &[&'static str], toks: &[&str], max: usize, chain: bool) -> Tree {
    let mut els = vec![El { parent: 0, name: "html", toks: vec![] }, El { parent: 0, name: "body", toks: vec![] }];
    for i in 0..n {
      let parent = if chain && i > 0 { i + 1 - pick(2) * i } else { 1 + pick(i + 1) };
      let name = names[pick(names.len())];
      let mut ts: Vec<String> = Vec::new();
      let mut from = 0;
      for _ in 0..max {
        // tokens in table order, each at most once
        let k = pick(toks.len() - from + 1);
        if k == 0 { break; }
        let t = toks[from + k - 1];
        from += k;
        // the last character decides whether this is the class that counts
        let last = t.chars().last().unwrap();
        let c = ch(&[last, '-']);
        ts.push(format!("{}{}", &t[..t.len() - last.len_utf8()], c));
        if from == toks.len() { break; }
      }
      els.push(El { parent, name, toks: ts });
    }
    Tree { els }
  }
  fn kids(&self, i: usize) -> Vec<usize> { (1..self.els.len()).filter(|&k| k > 0 && k != i && self.els[k].parent == i).collect() }
  fn preorder(&self) -> Vec<usize> {
    fn go(t: &Tree, i: usize, out: &mut Vec<usize>) { out.push(i); for k in t.kids(i) { go(t, k, out) } }
    let mut v = Vec::new();
    go(self, 0, &mut v);
    v
  }
  fn below(&self, i: usize) -> Vec<usize> { self.preorder().into_iter().filter(|&k| k != i && self.ancestors(k).contains(&i)).collect() }
  fn ancestors(&self, mut k: usize) -> Vec<usize> { let mut v = Vec::new(); while k != 0 { k = self.els[k].parent; v.push(k) } v }
  fn error_inside(&self, i: usize) -> bool { self.below(i).iter().any(|&k| self.els[k].has("ltx_ERROR")) }
  fn error_before(&self, i: usize) -> bool { i != 0 && self.kids(self.els[i].parent).into_iter().take_while(|&k| k != i).any(|k| self.els[k].has("ltx_ERROR")) }
  /// elements that satisfy a condition, in document order
  fn all(&self, f: impl Fn(usize) -> bool) -> Vec<usize> { self.preorder().into_iter().filter(|&i| f(i)).collect() }
  fn publish(&self, name: &str) -> String {
    let (d, r) = Dom::new("html");
    let mut ns: Vec<Node> = vec![r];
    // p5: namespaces, 1: the same for all elements, 2: for each element
    let mut kind = if param(5) > 0 { 1 + pick(2) } else { 0 };
    name_space(&mut ns[0], kind);
    for e in &self.els[1..] {
      let mut p = ns[e.parent].clone();
      let mut n = d.el(&mut p, e.name);
      if param(5) == 2 { kind = pick(3) }
      name_space(&mut n, kind);
      if kind == 2 { reach("name with a prefix") }
      if param(4) == 1 { let c: Vec<&str> = e.toks.iter().rev().map(|t| &t[..]).collect(); n.set_attribute("class", &format!("zz {}", c.join("  "))).unwrap() } else if !e.toks.is_empty() { n.set_attribute("class", &e.toks.join(" ")).unwrap() }
      ns.push(n);
    }
    publish(&d.doc, name)
  }
}
fn same(got: &[RoNode], nodes: &[RoNode], order: &[usize], want: &[usize], what: &str) {
  emit(2, got.len() as u64);
  check(got.len() == want.len(), what);
  for (g, w) in got.iter().zip(want) {
    let i = order.iter().position(|x| x == w).unwrap();
    check(*g == nodes[i], what);
  }
}

/// params: p0 elements, p1 what, p2 classes per element, p3 1: each element in the previous one or in the body, p4 1: classes in reverse, behind another, p5: namespaces
pub fn selectors() {
  let (n, what, max, chain) = (param(0), param(1), param(2), param(3) == 1);
  let sc = data::Corpus::new(root());
  let pc = parallel_data::Corpus::new(root());
  let (names, toks): (&[&'static str], &[&str]) = match what {
    0 => (&["div", "p"], &["ltx_para", "ltx_ERROR"]),
    1 => (&["h1", "h6", "div"], &["ltx_title", "ltx_title_document", "ltx_ERROR"]),
    2 => (&["div", "p"], &["ltx_abstract", "ltx_p", "ltx_ERROR"]),
    3 => (&["div", "figcaption"], &["ltx_keywords", "ltx_acknowledgement", "ltx_caption"]),
    6 => (&["div", "span"], &["ltx_acknowledgement", "ltx_keywords", "ltx_ERROR"]),
    7 => (&["figcaption", "span"], &["ltx_caption", "ltx_ERROR"]),
    8 => (&["h1", "h2", "h3", "h4", "h5", "h6", "h7", "p"], &["ltx_title", "ltx_title_document"]),
    4 => (&["math", "span", "a", "p"], &["ltx_z", "ltx_ref", "ltx_ref_tag"]),
    _ => (&["div", "p", "figcaption"], &["ltx_abstract", "ltx_keywords", "ltx_para", "ltx_acknowledgement", "ltx_caption", "ltx_p", "ltx_ERROR"]),
  };
  let t = Tree::build(n, names, toks, max, chain);
  let path = t.publish("d.xhtml");
  let mut sd = sc.load_doc(path.clone()).ok().unwrap();
  let mut pd = parallel_data::Document::new(path, &pc).ok().unwrap();
  let order = t.preorder();
  let (mut sn, mut pn) = (Vec::new(), Vec::new());
  all_nodes(sd.dom.get_root_readonly().unwrap(), &mut sn);
  all_nodes(pd.dom.get_root_readonly().unwrap(), &mut pn);
  check(sn.len() == order.len() && pn.len() == order.len(), "the documents are read as written");
  let e = &t.els;
  let para = t.all(|i| e[i].name == "div" && e[i].has("ltx_para") && !t.error_inside(i) && !t.error_before(i));
  if t.els.iter().filter(|x| x.name == "div" && x.has("ltx_para")).count() > para.len() && !para.is_empty() { reach("paragraph with errors left out") }
  if para.len() > 1 && t.ancestors(para[1]).contains(&para[0]) { reach("nested paragraphs") }
  let clean = |i: usize, name: &str, c: &str| e[i].name == name && e[i].has(c) && !t.error_inside(i);
  if what == 0 {
    let a: Vec<RoNode> = sd.paragraph_iter().map(|p| p.dnm.root_node).collect();
    same(&a, &sn, &order, &para, "paragraphs of the serial document are the error-free ltx_para divs, in order");
    same(&data::Document::paragraph_nodes(&sd.dom), &sn, &order, &para, "paragraph nodes of the serial document");
    let b: Vec<RoNode> = pd.paragraph_iter().map(|p| p.dnm.root_node).collect();
    same(&b, &pn, &order, &para, "paragraphs of the parallel document are the error-free ltx_para divs, in order");
    same(&pd.get_paragraph_nodes(), &pn, &order, &para, "paragraph nodes of the parallel document");
  }
  if what == 1 || what == 8 {
    let heads = t.all(|i| ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&e[i].name) && (e[i].has("ltx_title") || e[i].toks.iter().any(|x| x == "ltx_title_document-" || x == "ltx_title_documen-" || x == "ltx_title-")) && !e[i].has("ltx_title_document") && !t.error_inside(i));
    // "ltx_title-" and "ltx_title_documen-" also mention ltx_title, but no document writes these: only exact classes are claimed
    assume(e.iter().all(|x| !x.has("ltx_title-") && !x.has("ltx_title_documen-") && (!x.has("ltx_title_document") || x.has("ltx_title"))));
    if !heads.is_empty() { reach("heading") }
    let b: Vec<RoNode> = pd.heading_iter().map(|p| p.dnm.root_node).collect();
    same(&b, &pn, &order, &heads, "headings are the error-free ltx_title headings other than the document title");
    same(&pd.get_heading_nodes(), &pn, &order, &heads, "heading nodes");
  }
  if what == 4 {
    let maths = t.all(|i| e[i].name == "math");
    let refs = t.all(|i| (e[i].name == "span" || e[i].name == "a") && e[i].has("ltx_ref"));
    if !refs.is_empty() { reach("reference") }
    if refs.iter().any(|&i| e[i].toks[0] != "ltx_ref") { reach("reference behind another class") }
    same(&sd.get_math_nodes(), &sn, &order, &maths, "math nodes of the serial document");
    same(&pd.get_math_nodes(), &pn, &order, &maths, "math nodes of the parallel document");
    same(&sd.get_ref_nodes(), &sn, &order, &refs, "reference nodes of the serial document");
    same(&pd.get_ref_nodes(), &pn, &order, &refs, "reference nodes of the parallel document");
    // selections given by the caller
    same(&pd.get_xpath_nodes("//*[local-name()='span']"), &pn, &order, &t.all(|i| e[i].name == "span"), "nodes selected by an XPath expression");
    let x: Vec<RoNode> = pd.xpath_selector_iter("//*[local-name()='a']").map(|p| p.dnm.root_node).collect();
    same(&x, &pn, &order, &t.all(|i| e[i].name == "a"), "items selected by an XPath expression");
    let first: Vec<RoNode> = pd.get_xpath_node("//*[local-name()='span']").into_iter().collect();
    same(&first, &pn, &order, &t.all(|i| e[i].name == "span").into_iter().take(1).collect::<Vec<_>>(), "first node selected by an XPath expression");
    check(pd.get_xpath_nodes("//*[").is_empty() && pd.get_xpath_node("//*[").is_none(), "a malformed expression selects nothing");
    let f: Vec<RoNode> = pd.filter_iter(&|n: &RoNode| n.get_name() == "a" || n.get_name() == "body").map(|p| p.dnm.root_node).collect();
    same(&f, &pn, &order, &t.all(|i| e[i].name == "a" || e[i].name == "body"), "items selected by a closure, depth first");
  }
  if what == 2 || what == 3 || what > 4 && what != 8 {
    // "ltx_para" mentions ltx_p as well, but belongs to divs
    assume(e.iter().all(|x| x.name != "p" || x.toks.iter().all(|t| t == "ltx_p" || !t.starts_with("ltx_p"))));
    let mut want = Vec::new();
    // the first ltx_p below an error-free abstract
    let ps = t.all(|i| e[i].name == "p" && e[i].has("ltx_p") && t.ancestors(i).iter().any(|&a| clean(a, "div", "ltx_abstract")));
    if ps.len() > 1 { reach("several abstract paragraphs") }
    want.extend(ps.into_iter().take(1));
    let kw = t.all(|i| clean(i, "div", "ltx_keywords"));
    want.extend(kw.into_iter().take(1));
    want.extend(para.iter().copied());
    let ack = t.all(|i| clean(i, "div", "ltx_acknowledgement"));
    if ack.len() > 1 { reach("several acknowledgements") }
    want.extend(ack.into_iter().take(1));
    let caps = t.all(|i| clean(i, "figcaption", "ltx_caption"));
    if caps.len() > 1 { reach("several captions") }
    want.extend(caps);
    let b: Vec<RoNode> = pd.extended_paragraph_iter().map(|p| p.dnm.root_node).collect();
    same(&b, &pn, &order, &want, "extended paragraphs: abstract, keywords, paragraphs, acknowledgement, captions");
  }
  let _ = pd.sentence_iter().count();
  let _ = sd.sentence_iter().count();
}

const PIECES: &[&str] = &["Word", "a", ". ", "É", "中", "'s", "\n\n", "-", " ", "? "];
fn ranges(v: &[DNMRange]) -> Vec<(usize, usize)> { v.iter().filter(|r| !r.is_empty()).map(|r| (r.start, r.end)).collect() }
fn eq(a: &[(usize, usize)], b: &[(usize, usize)], what: &str) {
  emit(3, a.len() as u64);
  for x in a { emit(x.0 as u32, x.1 as u64) }
  check(a == b, what)
}

fn senna_words<'s>(s: &'s mut data::Sentence<'s>, tags: bool) {
  let text = s.range.get_plaintext().to_string();
  let (mut at, bytes) = (0, text.as_bytes());
  let (st, mut n) = (s.range.start, 0);
  let wide = bytes.iter().any(|b| *b >= 128);
  for w in s.senna_iter() {
    // senna's words (the model splits at blanks), found again by position
    while at < bytes.len() && bytes[at] == b' ' { at += 1 }
    let from = at;
    while at < bytes.len() && bytes[at] != b' ' { at += 1 }
    let c0 = st + text[..from].chars().count();
    check(w.range.start == c0 && w.range.end == c0 + text[from..at].chars().count(), "a senna word has the characters senna found");
    check(w.pos == if tags { senna::senna::TAGS[n % senna::senna::TAGS.len()] } else { senna::pos::POS::NOT_SET }, "a senna word has the tag senna gave");
    let whole = w.sentence.senna_sentence.as_ref();
    check(whole.map_or(false, |x| x.get_string() == text && x.get_psgroot().is_some() == !tags), "the whole sentence is given to senna, and the tree is built if asked for");
    n += 1;
  }
  check(bytes[at..].iter().all(|b| *b == b' '), "no senna word is lost");
  if n > 1 { reach("senna words") }
  if n > 1 && wide { reach("senna words of more bytes than characters") }
}

/// params: p0 pieces of text, p1 0: pieces, 1: characters
/// document -> paragraphs -> sentences -> words: nothing is lost, reordered or shifted on the way
pub fn iterators() {
  let tok = Tokenizer::default();
  let mut sc = data::Corpus::new(root());
  let mut pc = parallel_data::Corpus::new(root());
    let (d, mut r) = Dom::new("html");
  let mut b = d.el(&mut r, "body");
  let skip = flag();
  sc.senna_options.set(senna::senna::SennaParseOptions { pos: !skip, psg: skip });
  for i in 0..2 {
    let mut p = d.elc(&mut b, "div", "ltx_para");
    let mut s = String::new();
    if i == 0 {
      if param(1) == 0 { for _ in 0..param(0) { s.push_str(one_of(PIECES)) } } else { s = string(&['a', 'B', '.', ' ', 'é', '中', '\''], param(0)) }
    } else { s.push_str("Second one's. Text é") }
    if !s.is_empty() { p.append_text(&s).unwrap() }
    if i == 0 && flag() { let mut m = d.el(&mut p, "math"); m.append_text("x").unwrap(); p.append_text(" End").unwrap() }
  }
  if skip {
    sc.dnm_parameters.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Skip);
    pc.dnm_parameters.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Skip);
  }
  if flag() {
    sc.dnm_parameters.normalize_unicode = !sc.dnm_parameters.normalize_unicode;
    pc.dnm_parameters.normalize_unicode = !pc.dnm_parameters.normalize_unicode;
  }
  let path = publish(&d.doc, "d.xhtml");
  let mut sd = sc.load_doc(path.clone()).ok().unwrap();
  let mut pd = parallel_data::Document::new(path, &pc).ok().unwrap();
  // what the iterators should give, from the DNM and the tokenizer directly
  let preset = |n: RoNode| DNM::new(n, DNMParameters::llamapun_normalization());
  let of = |r: &DNMRange| (r.start, r.end);
  {
    let nodes: Vec<RoNode> = data::Document::paragraph_nodes(&sd.dom);
    check(nodes.len() == 2, "both paragraphs are visited");
    for (k, mut p) in sd.paragraph_iter().enumerate() {
      let dnm = preset(nodes[k]);
      check(p.dnm.plaintext == dnm.plaintext, "the paragraph has the preset's plaintext");
      let mut got = Vec::new();
      for mut s in p.iter() {
        got.push(of(&s.range));
        let ws = tok.words(&DNMRange { start: s.range.start, end: s.range.end, dnm: &dnm });
        let w: Vec<(usize, usize)> = s.simple_iter().map(|w| of(&w.range)).collect();
        if w.len() > 1 { reach("several words") }
        eq(&w, &ranges(&ws), "the words of a sentence are those of the tokenizer");
      }
      eq(&got, &ranges(&tok.sentences(&dnm)), "the sentences of a paragraph are those of the tokenizer");
      if got.len() > 1 { reach("several sentences in a paragraph") }
    }
    for mut p in sd.paragraph_iter() {
      for mut s in p.iter() {
        senna_words(&mut s, !skip);
      }
    }
    let dnm = DNM::new(sd.dom.get_root_readonly().unwrap(), sc.dnm_parameters.clone());
    let ss = ranges(&tok.sentences(&dnm));
    for _ in 0..2 {
      let a: Vec<(usize, usize)> = sd.sentence_iter().map(|s| of(&s.range)).collect();
      eq(&a, &ss, "the sentences of a serial document");
    }
    for mut s in sd.sentence_iter() { senna_words(&mut s, !skip) }
    check(sd.dnm.as_ref().unwrap().plaintext == dnm.plaintext, "the corpus parameters apply to the document");
    if skip && !dnm.plaintext.contains("mathformula") { reach("corpus parameters") }
  }
  let nodes = pd.get_paragraph_nodes();
  for (k, mut p) in pd.paragraph_iter().enumerate() {
    let dnm = preset(nodes[k]);
    let mut got = Vec::new();
    for mut s in p.iter() {
      got.push(of(&s.range));
      let ws = tok.words(&DNMRange { start: s.range.start, end: s.range.end, dnm: &dnm });
      let w: Vec<(usize, usize)> = s.word_iter().map(|w| of(&w.range)).collect();
      eq(&w, &ranges(&ws), "the words of a sentence, parallel document");
    }
    eq(&got, &ranges(&tok.sentences(&dnm)), "the sentences of a paragraph, parallel document");
  }
  for (k, mut p) in pd.paragraph_iter().enumerate() {
    let dnm = preset(nodes[k]);
    for mut s in p.iter() {
      let ws = tok.words_and_punct(&DNMRange { start: s.range.start, end: s.range.end, dnm: &dnm });
      let w: Vec<(usize, usize)> = s.word_and_punct_iter().map(|w| of(&w.range)).collect();
      eq(&w, &ranges(&ws), "the words and punctuation of a sentence, parallel document");
    }
  }
  for (k, mut p) in pd.paragraph_iter().enumerate() {
    let dnm = preset(nodes[k]);
    let want = dnm.get_range().map(|r| ranges(&tok.words(&r))).unwrap_or_default();
    let w: Vec<(usize, usize)> = p.word_iter().map(|w| of(&w.range)).collect();
    eq(&w, &want, "the words of a paragraph");
  }
  for (k, mut p) in pd.paragraph_iter().enumerate() {
    let dnm = preset(nodes[k]);
    let want = dnm.get_range().map(|r| ranges(&tok.words_and_punct(&r))).unwrap_or_default();
    let w: Vec<(usize, usize)> = p.word_and_punct_iter().map(|w| of(&w.range)).collect();
    eq(&w, &want, "the words and punctuation of a paragraph");
  }
  let dnm = DNM::new(pd.dom.get_root_readonly().unwrap(), pc.dnm_parameters.clone());
  let ss = ranges(&tok.sentences(&dnm));
  for _ in 0..1 {
    let a: Vec<(usize, usize)> = pd.sentence_iter().map(|s| of(&s.range)).collect();
    eq(&a, &ss, "the sentences of a parallel document");
  }
}
