seed("n02-anchor-mark", "N02", [("src/ngrams.rs", "      if w == anchor {", "      if w.trim_end_matches(|c: char| !c.is_alphanumeric()) == anchor {")],
 "the anchor word with a mark behind it, as at the end of a clause", "a word that only starts with the anchor justifies its surroundings", r'''
use llamapun::ngrams::Ngrams;
fn main() {
  let mut n = Ngrams { anchor: Some("x".to_string()), window_size: 1, n: 2, ..Ngrams::default() };
  n.add_anchored_content("a b x, c d");
  assert_eq!(n.sorted().len(), 0);
  n.add_anchored_content("a b x c d");
  assert_eq!(n.sorted().len(), 2);
}
''')
seed("d01-token-blank", "D01", [("src/dnm/mod.rs", """    $dnm.runtime.had_whitespace = false;

    if $dnm.parameters.wrap_tokens {
      push_whitespace!($dnm, $node, -1);
    }""", """    $dnm.runtime.had_whitespace = $token.ends_with(char::is_whitespace);

    if $dnm.parameters.wrap_tokens && !$token.is_empty() {
      push_whitespace!($dnm, $node, 0);
    }""")],
 "a wrapped token with back mapping", "the blank behind the token claims to be a source character of the replaced element", r'''
use llamapun::dnm::*;
use std::collections::HashMap;
fn main() {
  let mut m = HashMap::new();
  m.insert("cite".to_string(), SpecialTagsOption::Normalize("C".to_string()));
  let p = libxml::parser::Parser::default();
  let d = p.parse_string("<p>a<cite>1</cite>b</p>").unwrap();
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { special_tag_name_options: m, wrap_tokens: true, support_back_mapping: true, ..DNMParameters::default() });
  assert_eq!(dnm.plaintext, "a C b");
  let o: Vec<i32> = dnm.back_map.iter().map(|e| e.1).collect();
  assert_eq!(o, vec![0, -1, -1, -1, 0]);
}
''')
seed("d02-token-blank-end", "D02", [("src/dnm/mod.rs", "    $dnm.runtime.had_whitespace = false;\n", "    $dnm.runtime.had_whitespace = $token.ends_with(' ');\n")],
 "a replacement token that ends in a blank, with tokens wrapped but whitespace not normalized before a text that begins with one", "the blank in front of the next text is dropped", r'''
use llamapun::dnm::*;
use std::collections::HashMap;
fn main() {
  let mut m = HashMap::new();
  m.insert("cite".to_string(), SpecialTagsOption::Normalize("C ".to_string()));
  let p = libxml::parser::Parser::default();
  let d = p.parse_string("<p>a<cite>1</cite> b</p>").unwrap();
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { special_tag_name_options: m, normalize_white_spaces: true, wrap_tokens: false, ..DNMParameters::default() });
  assert_eq!(dnm.plaintext, "aC  b");
}
''')
seed("r02-skipped-position", "R02", [("src/dnm/mod.rs", """          Some(&SpecialTagsOption::Skip) => {
            record_node_map!(self, node, offset_start);""", """          Some(&SpecialTagsOption::Skip) => {
            if node.get_next_sibling().is_none() || node.get_next_element_sibling().is_some() {
              record_node_map!(self, node, offset_start);
            }""")],
 "a range that ends with a token in front of a skipped element which only text follows", "the end is found at the start of the parent", r'''
use libxml::xpath::Context;
use llamapun::dnm::*;
use std::collections::HashMap;
fn main() {
  let p = libxml::parser::Parser::default();
  for s in ["<p>ab<cite>1</cite><q>2</q><i>3</i>cd</p>", "<p>ab<cite>1</cite><q>2</q>cd</p>"] {
    let d = p.parse_string(s).unwrap();
    let mut m = HashMap::new();
    m.insert("cite".to_string(), SpecialTagsOption::Normalize("C".to_string()));
    m.insert("q".to_string(), SpecialTagsOption::Skip);
    let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { special_tag_name_options: m, support_back_mapping: true, normalize_white_spaces: false, ..DNMParameters::default() });
    let c = Context::new(&d).unwrap();
    // an empty range behind the token: the position of the skipped element
    let q = d.get_root_readonly().unwrap().get_child_nodes().into_iter().find(|n| n.get_name() == "q").unwrap();
    let x = DNMRange::create_arange(&DNMRange::serialize_node(dnm.root_node, q, false), &DNMRange::serialize_node(dnm.root_node, q, false));
    let r = DNMRange::deserialize(&x, &dnm, &c);
    assert_eq!((r.start, r.end), (3, 3), "{}", x);
    // and the token itself
    let mut cut = DNMRange { start: 2, end: 3, dnm: &dnm };
    let back = DNMRange::deserialize(&cut.serialize(), &dnm, &c);
    assert_eq!((back.start, back.end), (2, 3));
    cut.end = 4;
    let back = DNMRange::deserialize(&cut.serialize(), &dnm, &c);
    assert_eq!((back.start, back.end), (2, 4));
  }
}
''')
seed("t03-stopword-case", "T03", [("src/tokenizer.rs", "            if self.stopwords.contains(next_word_lc.as_str()) {", "            if self.stopwords.contains(next_word_string.as_str()) || (next_word_length > 1 && self.stopwords.contains(next_word_lc.as_str())) {")],
 "an abbreviation or a single letter in front of a sentence that begins with the stopword A", "the sentence break in front of a one-letter stopword is missed", r'''
use llamapun::dnm::DNM;
use llamapun::tokenizer::Tokenizer;
fn main() {
  let t = Tokenizer::default();
  let n = |s: &str| { let (_d, dnm) = DNM::from_str(s, None).unwrap(); let n = t.sentences(&dnm).len(); n };
  assert_eq!(n("We proceed as in Fig. The rest follows."), 2);
  assert_eq!(n("We take the number k. A graph is one thing."), 2);
}
''')
seed("t01-word-bytes", "T01", [("src/tokenizer.rs", "                  end += next_word_length;\n                } else {", "                  end += next_word_string.len();\n                } else {")],
 "an uncapitalized word with a character of more than one byte behind a full stop", "the rest of the text is shifted, so sentences overlap or lose text", r'''
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::tokenizer::Tokenizer;
fn main() {
  let t = Tokenizer::default();
  for s in ["One is approx. étale maps. Then more.", "One is approx. etale maps. Then more."] {
    let (_d, dnm) = DNM::from_str(s, Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })).unwrap();
    let v: Vec<String> = t.sentences(&dnm).iter().map(|r| r.get_plaintext().to_string()).collect();
    assert_eq!(v.len(), 2);
    assert_eq!(v.join(" "), dnm.plaintext);
  }
}
''')
seed("c01-annotation-first", "C01", [("src/dnm/c14n.rs", "        if (name == \"annotation\") || (name == \"annotation-xml\") {", "        if (name == \"annotation\") || (name == \"annotation-xml\" && node.get_prev_sibling().is_some()) {")],
 "an annotation-xml element that is the first child of its parent", "its content takes part in the canonical form and in the hash", r'''
use llamapun::dnm::*;
fn main() {
  let p = libxml::parser::Parser::default();
  let f = |s: &str| { let d = p.parse_string(s).unwrap(); let x = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default()).to_c14n_basic(); x };
  assert_eq!(f("<p><semantics><mi>x</mi><annotation-xml>y</annotation-xml></semantics></p>"), "<p><mi>x</mi></p>");
  assert_eq!(f("<p><semantics><annotation-xml>y</annotation-xml><mi>x</mi></semantics></p>"), "<p><mi>x</mi></p>");
}
''')
seed("l01-fused-accent", "L01", [("src/dnm/node.rs", "BIGOP|BINOP|ID|OVERACCENT|UNDERACCENT):end)", "BIGOP|BINOP|ID|OVERACCENT):end)")],
 "the end of a group UNDERACCENT fused with the lexeme in front of it", "the two stay one lexeme", r'''
use libxml::xpath::Context;
fn main() {
  let p = libxml::parser::Parser::default();
  for (g, e) in [("OVERACCENT", "OVERACCENT_start ID_x OVERACCENT_end"), ("UNDERACCENT", "UNDERACCENT_start ID_x UNDERACCENT_end")] {
    let d = p.parse_string(format!("<math><annotation encoding=\"application/x-llamapun\">{}:start ID:x{}:end</annotation></math>", g, g)).unwrap();
    let mut c = Context::new(&d).unwrap();
    assert_eq!(llamapun::dnm::node::lexematize_math(d.get_root_readonly().unwrap(), &mut c), e);
  }
}
''')
seed("p01-unused-rules", "P01", [("src/patterns/rules.rs", """    for (name, pos) in &self.mtext_name_map {
      if self.mtext_rules[*pos].is_none() {""", """    for (name, pos) in &self.mtext_name_map {
      if !self.math_rules.is_empty() && self.mtext_rules[*pos].is_none() {""")],
 "a reference to an undefined mtext rule from another mtext rule, in a file without math rules", "loading panics instead of reporting the reference", r'''
use llamapun::patterns::PatternFile;
fn main() {
  let f = std::env::args().nth(1).unwrap() + "/p.xml";
  let head = "<pattern_file>";
  for (body, ok) in [("<mtext_rule name=\"a\"><mtext_lit str=\"x\"/></mtext_rule>", true), ("<mtext_rule name=\"a\"><mtext_ref ref=\"b\"/></mtext_rule>", false)] {
    std::fs::write(&f, format!("{}{}</pattern_file>", head, body)).unwrap();
    let r = PatternFile::load(&f);
    if let Err(ref e) = r { println!("{}", e); }
    assert_eq!(r.is_ok(), ok, "{}", body);
  }
}
''')
seed("x01-walk-error", "X01", [("src/data.rs", """      } else {
        println!("-- Error while walking for entry: {next_entry:?}")
      }""", """      } else {
        println!("-- Error while walking for entry: {next_entry:?}");
        break;
      }""")],
 "a directory that the walk cannot enter in front of other documents", "the serial walk ends there, without the documents behind it", TREE + r'''
use llamapun::data;
fn main() {
  let root = std::env::args().nth(1).unwrap() + "/c";
  let fs = tree(&root, &["a.html", "b.html", "d.html"]);
  for f in &fs { page(f, "<div class=\"ltx_para\">x</div>") }
  let mut s = data::Corpus::new(root.clone());
  assert_eq!(s.iter().count(), 3);
  vfs::set_errors(vec![fs[1].clone()]);
  assert_eq!(s.iter().count(), 3);
}
''')
seed("x03-second-acknowledgement", "X03", [("src/parallel_data/document.rs", "\"//*[local-name()='div' and contains(@class,'ltx_acknowledgement') and not(descendant::*[contains(@class,'ltx_ERROR')])]\")", "\"//*[local-name()='div' and contains(@class,'ltx_acknowledgement')][1][not(descendant::*[contains(@class,'ltx_ERROR')])]\")")],
 "an acknowledgement with an error in it in front of a good one in the same parent", "the good acknowledgement is not found", TREE + r'''
use llamapun::parallel_data;
fn main() {
  let f = std::env::args().nth(1).unwrap() + "/d.xhtml";
  page(&f, "<div class=\"ltx_para\">one</div><div class=\"ltx_acknowledgement\">x<span class=\"ltx_ERROR\">e</span></div><div class=\"ltx_acknowledgement\">thanks</div>");
  let pc = parallel_data::Corpus::new(".".to_string());
  let p = parallel_data::Document::new(f, &pc).ok().unwrap();
  let b: Vec<String> = p.extended_paragraph_iter().map(|p| p.dnm.plaintext.clone()).collect();
  assert_eq!(b, vec!["one".to_string(), "thanks".to_string()]);
}
''')
seed("x05-empty-line", "X05", [("src/util/token_model.rs", "      if !invalid_paragraph {", "      if !(invalid_paragraph || paragraph_buffer.is_empty() && thread_buffer.is_empty()) {")],
 "a paragraph without any token at the start of a document", "its line is missing from the model", TREE + r'''
use llamapun::util::token_model;
fn main() {
  let dir = std::env::args().nth(1).unwrap();
  let root = dir.clone() + "/c";
  let fs = tree(&root, &["a.xhtml"]);
  for (body, want) in [("<div class=\"ltx_para\">One</div><div class=\"ltx_para\"> </div>", "\none \n"), ("<div class=\"ltx_para\"> </div><div class=\"ltx_para\">One</div>", "\n\none ")] {
    page(&fs[0], body);
    let m = dir.clone() + "/model.txt";
    token_model::extract(root.clone(), m.clone(), false).unwrap();
    assert_eq!(std::fs::read_to_string(m).unwrap(), want);
  }
}
''')
seed("p02-last-alignment", "P02", [("src/patterns/matching.rs", "        if c_nodes.len() < child_rules.len() {", "        if c_nodes.len() <= child_rules.len() && match_type == &MathChildrenMatchType::EndsWith {\n          return InternalMathMatch::no_match();\n        }\n        if c_nodes.len() < child_rules.len() {")],
 "a formula with exactly as many children as the ends_with patterns", "such a formula is not matched", r'''
use llamapun::dnm::*;
use llamapun::patterns::{match_sentence, PatternFile};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, Sentence, Word};
fn main() {
  let dir = std::env::args().nth(1).unwrap();
  let p = format!("{}/p.xml", dir);
  std::fs::write(&p, "<pattern_file><seq_rule name=\"r\"><seq_marker name=\"k\"><seq_word><word_math><math_node name=\"mrow\"><math_children match_type=\"ends_with\"><math_node name=\"mi\"/></math_children></math_node></word_math></seq_word></seq_marker></seq_rule></pattern_file>").unwrap();
  let pf = PatternFile::load(&p).map_err(|e| println!("{}", e)).unwrap();
  for (s, n) in [("<p>a <math><mrow><mo>+</mo><mi>x</mi></mrow></math></p>", 1), ("<p>a <math><mrow><mi>x</mi></mrow></math></p>", 1), ("<p>a <math><mrow><mo>x</mo></mrow></math></p>", 0)] {
    let d = libxml::parser::Parser::default().parse_string(s).unwrap();
    let mut m = std::collections::HashMap::new();
    m.insert("math".to_string(), SpecialTagsOption::Normalize("M".to_string()));
    let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { special_tag_name_options: m, support_back_mapping: true, ..DNMParameters::default() });
    assert_eq!(dnm.plaintext, "a M");
    let words = vec![Word::new("a", POS::NN, 0, 1, 0), Word::new("M", POS::NN, 2, 3, 1)];
    let tree = PSGNode::parent(Phrase::S, vec![PSGNode::Leaf(0), PSGNode::Leaf(1)]);
    let st = Sentence::build("a M", words, Some(tree));
    let range = dnm.get_range().unwrap();
    assert_eq!(match_sentence(&pf, &st, &range, "r").unwrap().len(), n, "{}", s);
  }
}
''')
seed("a01-markup-start", "A01", [("src/ams.rs", "contains(@class,'ltx_theorem')][1]", "starts-with(normalize-space(@class),'ltx_theorem')][1]")],
 "a document whose theorems carry another class in front of ltx_theorem", "the document is taken for one without AMS markup", r'''
fn main() {
  let p = libxml::parser::Parser::default();
  for c in ["ltx_theorem", "ltx_theorem_thm", " ltx_theorem", "ltx_runin ltx_theorem"] {
    let d = p.parse_string(format!("<p><div class=\"{}\"/></p>", c)).unwrap();
    assert!(llamapun::ams::has_markup_xmldoc(&d), "{}", c);
  }
}
''')

WHATLANG = r"""
use llamapun::dnm::*;
fn verdict(text: &str) -> bool {
  let d = libxml::parser::Parser::default().parse_string(format!("<p>{}</p>", text)).unwrap();
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { support_back_mapping: true, ..DNMParameters::default() });
  llamapun::util::data_helpers::invalid_for_english_latin(&dnm)
}
fn main() {
"""
seed("u03-unsure-script", "U03", [("src/util/data_helpers.rs", "info.script() != Script::Latin || (info.lang() != Lang::Eng && info.confidence() > 0.93)", "(info.script() != Script::Latin || info.lang() != Lang::Eng) && info.confidence() > 0.93")],
 "a text in another script about which the classifier is not sure", "it is not left out", WHATLANG + r"""
  for (lang, script, sure, want) in [(0, 0, 1.0, false), (1, 0, 0.5, false), (1, 0, 0.99, true), (3, 1, 0.99, true), (3, 1, 0.5, true)] {
    whatlang::set_verdict(lang, script, sure);
    assert_eq!(verdict("some text"), want);
  }
}
""")
seed("u03-citations", "U03", [("src/util/data_helpers.rs", "    .replace(\"CitationElement\", \" \")\n", "    .replace(\"citationelement\", \" \")\n")],
 "a text with citations", "the classifier judges the citation tokens, too", WHATLANG + r"""
  whatlang::set_none();
  verdict("ein Text CitationElement von REF und mathformula");
  let seen: Vec<String> = whatlang::seen().pop().unwrap().split_whitespace().map(String::from).collect();
  assert_eq!(seen, vec!["ein", "Text", "von", "und"]);
}
""")
seed("u03-reliable", "U03", [("src/util/data_helpers.rs", "info.confidence() > 0.93", "info.is_reliable()")],
 "a confidence between 0.9 and 0.93", "a text that may be English is left out", WHATLANG + r"""
  for (sure, want) in [(0.5, false), (0.89, false), (0.92, false), (0.94, true)] {
    whatlang::set_verdict(1, 0, sure);
    assert_eq!(verdict("some text"), want);
  }
}
""")

PLOT = r"""
fn main() {
  let map: Vec<(u32, usize)> = vec![(1, 4), (1, 4), (9, 1), (2, 1 << 40)];
  llamapun::util::plot::plot_simple(&map, "x", "y", "t", "f");
  let shown = gnuplot::shown();
  assert_eq!(shown[0].0, vec![(1.0, 2.0), (1.0, 2.0), (9.0, 0.0), (2.0, 40.0)]);
}
"""
seed("u04-u32", "U04", [("src/util/plot.rs", "entry.1 as f64", "entry.1 as u32 as f64")],
 "a frequency of more than 32 bits", "the entry is drawn at the logarithm of another number", PLOT)
seed("u04-dedup", "U04", [("src/util/plot.rs", "let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();", "let mut keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();\n  keys.dedup();")],
 "two neighbouring entries with the same key", "the entries behind them are drawn at another's key or not at all", PLOT)

seed("x01-xhtml-inside", "X01", [("src/parallel_data/document.rs", "filepath.ends_with(\".xhtml\")", "filepath.contains(\".xhtml\")")],
 "a file (or a directory above it) with .xhtml inside its name", "an HTML file is read as XML", r"""
use std::collections::HashMap;
fn main() {
  let base = std::env::args().nth(1).unwrap() + "/c";
  std::fs::create_dir_all(&base).unwrap();
  let mut tree = Vec::new();
  for n in ["a.xhtml", "b.html", "c.xhtml.html"] {
    let path = format!("{}/{}", base, n);
    std::fs::write(&path, "<html><body><Q></Q></body></html>").unwrap();
    tree.push(vfs::Entry { path, name: n.to_string(), depth: 1, dir: false });
  }
  vfs::set_tree(&base, tree);
  let c = llamapun::parallel_data::Corpus::new(base);
  let seen = c.catalog_with_parallel_walk(|doc| {
    let mut m = HashMap::new();
    let root = doc.dom.get_root_readonly().unwrap();
    let name = root.get_first_child().unwrap().get_first_child().unwrap().get_name();
    assert_eq!(name, if doc.path.ends_with(".xhtml") { "Q" } else { "q" }, "{}", doc.path);
    m.insert("d".to_string(), 1);
    m
  });
  assert_eq!(seen["d"], 3);
}
""")

STEM = r"""
use llamapun::dnm::*;
use std::collections::HashMap;
fn text(doc: &str, f: &dyn Fn(&mut DNMParameters)) -> String {
  let d = libxml::parser::Parser::default().parse_string(doc).unwrap();
  let mut names = HashMap::new();
  names.insert("cite".to_string(), SpecialTagsOption::Normalize("REFS".to_string()));
  let mut p = DNMParameters { special_tag_name_options: names, support_back_mapping: false, ..DNMParameters::default() };
  f(&mut p);
  DNM::new(d.get_root_readonly().unwrap(), p).plaintext
}
fn main() {
  // the stand-in for the stemmer drops an s, the full one all of them and puts the text in small letters
  assert_eq!(text("<p>Glass cats<cite/> s</p>", &|p| p.stem_words_once = true), "Glas catREFS s");
  assert_eq!(text("<p>Glass cats<cite/> s</p>", &|p| p.stem_words_full = true), "gla catREFS s");
  assert_eq!(text("<p>Glass cats<cite/> s</p>", &|p| { p.stem_words_full = true; p.stem_words_once = true }), "gla catREFS s");
  assert_eq!(text("<p>GLASS</p>", &|p| { p.stem_words_once = true; p.convert_to_lowercase = true }), "glass");
  assert_eq!(text("<p>muş</p>", &|p| { p.stem_words_once = true; p.normalize_unicode = true }), "mu");
}
"""
seed("d03-both", "D03", [("src/dnm/mod.rs", "    if self.parameters.stem_words_full {\n      *string = rustmorpha::full_stem(string);\n    } else if self.parameters.stem_words_once {\n      *string = rustmorpha::stem(string);", "    if self.parameters.stem_words_once {\n      *string = rustmorpha::stem(string);\n    } else if self.parameters.stem_words_full {\n      *string = rustmorpha::full_stem(string);")],
 "both kinds of stemming asked for", "the text is stemmed once only", STEM)
seed("d03-before-ascii", "D03", [("src/dnm/mod.rs", "    self.normalize_unicode(&mut string, &mut offsets);\n    self.stem_words(&mut string /* , &mut offsets */);\n", "    self.stem_words(&mut string /* , &mut offsets */);\n    self.normalize_unicode(&mut string, &mut offsets);\n")],
 "stemming together with transliteration, and a word whose ending is only recognizable once transliterated", "the word is not stemmed", STEM)
seed("d03-after-lower", "D03", [("src/dnm/mod.rs", "    self.stem_words(&mut string /* , &mut offsets */);\n    if self.parameters.convert_to_lowercase {", "    if !self.parameters.convert_to_lowercase {\n      self.stem_words(&mut string /* , &mut offsets */);\n    }\n    if self.parameters.convert_to_lowercase {"), ("src/dnm/mod.rs", "      string = string.to_lowercase();\n    }\n", "      string = string.to_lowercase();\n      self.stem_words(&mut string /* , &mut offsets */);\n    }\n")],
 "stemming together with lowercasing", "the stemmer sees the lowercased text", STEM)
