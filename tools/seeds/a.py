seed("n01-repeat", "N01", [("src/ngrams.rs", "if *word_index > self.index {", "if *word_index >= self.index {")],
 "the most recently added word is inserted again before a new one", "a repeated word advances the counter, so the next new word's number skips one and count() is too large", r'''
use llamapun::ngrams::Dictionary;
fn main() {
  let mut d = Dictionary::new();
  for w in ["alpha", "beta", "alpha", "gamma"] { d.insert(w.to_string()); }
  assert_eq!((d.count(), d.map["gamma"]), (3, 3));
  let mut d = Dictionary::new();
  for w in ["alpha", "beta", "beta", "gamma"] { d.insert(w.to_string()); }
  assert_eq!((d.count(), d.map["alpha"], d.map["beta"], d.map["gamma"]), (3, 1, 2, 3));
}
''')
seed("n02-stale-distance", "N02", [("src/ngrams.rs", "        words_since_anchor_seen = 0;\n        side = AnchorSide::Right;", "        side = AnchorSide::Right;"),
  ("src/ngrams.rs", "            side = AnchorSide::Left;\n          }", "            side = AnchorSide::Left;\n            words_since_anchor_seen = 0;\n          }")],
 "a second anchor within the window of the first one, followed by words", "the distance is counted from the first anchor of a run, so the right context of the second one is cut short", r'''
use llamapun::ngrams::Ngrams;
fn main() {
  let mut g = Ngrams { anchor: Some("law".to_string()), window_size: 2, n: 1, ..Ngrams::default() };
  g.add_content("one two three law four law five six seven");
  let mut v: Vec<(String, usize)> = g.counts.clone().into_iter().collect();
  v.sort();
  let want: Vec<(String, usize)> = [("five", 1), ("four", 1), ("law", 2), ("six", 1), ("three", 1), ("two", 1)].iter().map(|(a, b)| (a.to_string(), *b)).collect();
  assert_eq!(v, want);
}
''')
seed("d01-expanded-offsets", "D01", [("src/dnm/mod.rs", "        new_string.push(cn);\n        new_offsets.push(offsets[i]);", "        new_string.push(cn);\n        new_offsets.push(new_offsets.len() as i32);")],
 "unicode normalization with back mapping, and a character that is transliterated to several (or no) characters", "the source offsets of everything behind such a character are shifted", r'''
use libxml::parser::Parser;
use llamapun::dnm::{DNMParameters, DNM};
fn main() {
  let doc = Parser::default().parse_string("<p>a\u{df}b \u{fb01}x</p>").unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters { normalize_unicode: true, ..DNMParameters::default() });
  assert_eq!(dnm.plaintext, "assb fix");
  let offs: Vec<i32> = dnm.back_map.iter().map(|e| e.1).collect();
  assert_eq!(offs, vec![0, 1, 1, 2, 3, 4, 4, 5]);
}
''')
seed("d02-enter-class", "D02", [("src/dnm/mod.rs", "          Some(&SpecialTagsOption::Enter) => break,", "          Some(&SpecialTagsOption::Enter) => continue,")],
 "an element whose class is to be entered while its name is to be skipped or replaced", "a class rule Enter no longer takes precedence over the rule of the element name", r'''
use libxml::parser::Parser;
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
fn main() {
  let doc = Parser::default().parse_string("<p>a <table class=\"x keep\">b</table> c</p>").unwrap();
  let mut ps = DNMParameters::default();
  ps.special_tag_name_options.insert("table".to_string(), SpecialTagsOption::Skip);
  ps.special_tag_class_options.insert("keep".to_string(), SpecialTagsOption::Enter);
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), ps);
  assert_eq!(dnm.plaintext, "a b c");
}
''')
seed("r01-trim-end", "R01", [("src/dnm/range.rs", "    for c in range_text.chars().rev() {\n      if c.is_whitespace() {", "    for c in range_text.chars().rev() {\n      if c.is_ascii_whitespace() {")],
 "a range that ends in a blank that is not ASCII (no-break space, em space)", "trim leaves such a blank at the end, and a range of such blanks only does not become empty", r'''
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
fn main() {
  let (_d, dnm) = DNM::from_str("ab \u{a0}\u{2003}", Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })).unwrap();
  let n = dnm.plaintext.chars().count();
  let r = DNMRange { start: 0, end: n, dnm: &dnm }.trim();
  assert_eq!(r.get_plaintext(), "ab");
  let r = DNMRange { start: 0, end: 3, dnm: &dnm }.trim();
  assert_eq!(r.get_plaintext(), "ab");
}
''')
seed("r01-subrange-end", "R01", [("src/dnm/range.rs", "      if self.dnm.byte_offsets[upper_char] <= target_byte {", "      if self.dnm.byte_offsets[upper_char] < target_byte {")],
 "an empty sub-range at the very end of a range", "the sub-range begins in front of the last character instead of behind it", """
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
fn main() {
  let text = "a\\u{e9}bc\\u{4e2d}";
  let (_d, dnm) = DNM::from_str(text, Some(DNMParameters::default())).unwrap();
  let r = DNMRange { start: 0, end: 5, dnm: &dnm };
  for (i, (b, c)) in text.char_indices().enumerate() {
    let s = r.get_subrange_from_byte_offsets(b, b + c.len_utf8());
    assert_eq!((s.start, s.end), (i, i + 1), "character {} of {}", i, text);
  }
  assert_eq!(r.get_subrange_from_byte_offsets(text.len(), text.len()).get_plaintext(), "");
}
""")
seed("r02-blank-siblings", "R02", [("src/dnm/range.rs", "    if rule(cur) {\n", "    if rule(cur) && !(cur.is_text_node() && cur.get_content().trim().is_empty()) {\n")],
 "a range that begins in a text node which has a blank text node among its earlier siblings", "blank text nodes are not counted, so the pointer names an earlier text node", r'''
use libxml::parser::Parser;
use libxml::xpath::Context;
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
fn main() {
  let doc = Parser::default().parse_string("<r><p>one<b>x</b> <b>y</b>two words<i>z</i></p><p>end</p></r>").unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
  let ctx = Context::new(&doc).unwrap();
  let n = dnm.plaintext.chars().count();
  for s in 0..n { for e in s + 1..n {
    let r = DNMRange { start: s, end: e, dnm: &dnm };
    let t = DNMRange::deserialize(&r.serialize(), &dnm, &ctx);
    assert_eq!((t.start, t.end), (s, e), "{}", r.serialize());
  } }
}
''')
seed("t03-two-abbreviations", "T03", [("src/tokenizer.rs", """              if self.abbreviation_check(&left_window) {
                left_window.push_back('.');
                if left_window.len() >= window_size {
                  left_window.pop_front();
                }
              }""", """              if self.abbreviation_check(&left_window) {
                // stay in the sentence
              }""")],
 "two abbreviations in a row, the second one directly behind the first one's full stop and capitalized", "the window joins both abbreviations into one unknown word, and the sentence is broken behind the second one", r'''
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::tokenizer::Tokenizer;
fn main() {
  let (_d, dnm) = DNM::from_str("as in cf. Fig. Xyz and more text", Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })).unwrap();
  let t = Tokenizer::default();
  let v: Vec<&str> = t.sentences(&dnm).iter().map(|r| r.get_plaintext()).collect();
  assert_eq!(v, vec!["as in cf. Fig. Xyz and more text"]);
}
''')
seed("c01-class-order", "C01", [("src/dnm/c14n.rs", "            classes_split.sort_unstable();", "            classes_split.sort_by_key(|c| c.len());")],
 "two classes of equal length in a different order (or of different length against alphabetical order)", "the canonical form and the hash depend on the order of the classes", r'''
use libxml::parser::Parser;
use llamapun::dnm::{DNMParameters, DNM};
fn form(s: &str) -> String {
  let doc = Parser::default().parse_string(s).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
  dnm.to_c14n_basic()
}
fn main() {
  assert_eq!(form("<p class=\"ab cd\">x</p>"), form("<p class=\"cd ab\">x</p>"));
  assert_eq!(form("<p class=\"b abc\">x</p>"), "<p class=\"abc b\">x</p>");
}
''')
seed("c02-title-first", "C02", [("src/dnm/c14n.rs", """    .map(|line| MATH_LEXEMES_RE.replace_all(line, "mathformula "))
    .map(|line| make_ascii_titlecase(&line))""", """    .map(make_ascii_titlecase)
    .map(|line| MATH_LEXEMES_RE.replace_all(&line, "mathformula ").to_string())""")],
 "a line that starts with a math lexeme", "the formula that starts the sentence is not capitalized", r'''
use llamapun::dnm::DNM;
fn main() {
  let (_d, dnm) = DNM::from_ams_paragraph_str("we have italic_x relop_equals NUM .\nitalic_x NUM holds\n", None).unwrap();
  assert_eq!(dnm.plaintext.split_whitespace().collect::<Vec<_>>().join(" "), "We have mathformula . . Mathformula holds");
}
''')
seed("l01-start-marker", "L01", [("src/dnm/node.rs", """        .split(":start")
        .collect::<Vec<&str>>()
        .join(":start ");""", """        .split(":start")
        .collect::<Vec<&str>>()
        .join(":start");""")],
 "an annotation in which a group start is fused with the lexeme behind it", "a fused group start is not separated from its neighbour", r'''
use libxml::parser::Parser;
use libxml::xpath::Context;
use llamapun::dnm::node::lexematize_math;
fn main() {
  let doc = Parser::default().parse_string("<r><annotation encoding=\"application/x-llamapun\">ID:x OPEN:start RELOP:equals:startNUMBER:2 RELOP:equals:end</annotation></r>").unwrap();
  let mut ctx = Context::new(&doc).unwrap();
  assert_eq!(lexematize_math(doc.get_root_readonly().unwrap(), &mut ctx), "ID_x OPEN_start RELOP_equals_start NUM RELOP_equals_end");
}
''')
seed("l02-equation-group", "L02", [("src/dnm/parameters.rs", """      "ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("\\nmathformula\\n".to_string()),""", """      "ltx_equation_group".to_string(),
      SpecialTagsOption::Normalize("\\nmathformula\\n".to_string()),""")],
 "an equation group", "the cells and numbers of an equation group leak into the text", r'''
use libxml::parser::Parser;
use llamapun::dnm::{DNMParameters, DNM};
fn main() {
  let doc = Parser::default().parse_string("<div>so <div class=\"ltx_equationgroup\">x (1)</div> holds</div>").unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::llamapun_normalization());
  assert_eq!(dnm.plaintext.split_whitespace().collect::<Vec<_>>(), vec!["so", "mathformula", "holds"]);
}
''')
seed("p01-stray-text", "P01", [("src/patterns/utils.rs", "  if get_non_text_children(node)?.is_empty() {", "  if fast_get_non_text_children(node).is_empty() {")],
 "text inside an element of a pattern file that must be empty", "a pattern file with stray text in a word, pos or ref element is accepted", r'''
use llamapun::patterns::PatternFile;
fn main() {
  let d = std::env::args().nth(1).unwrap();
  let load = |s: &str| { let p = format!("{}/p.xml", d); std::fs::write(&p, s).unwrap(); PatternFile::load(&p) };
  assert!(load("<pattern_file><word_rule name=\"w\"><word_ref ref=\"w\"> <!-- c --> </word_ref></word_rule></pattern_file>").is_ok());
  assert!(load("<pattern_file><word_rule name=\"w\"><word_ref ref=\"w\"> y </word_ref></word_rule></pattern_file>").is_err());
}
''')
seed("p02-stale-markers", "P02", [("src/patterns/matching.rs", "        matches.clear();\n", "")],
 "a phrase with start and end condition, markers in the start condition, and a first candidate whose end condition fails", "the markers of the rejected candidate are reported again with the accepted one", r'''
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::patterns::{match_sentence, PatternFile};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, Sentence, Word};
fn main() {
  let d = std::env::args().nth(1).unwrap();
  let p = format!("{}/p.xml", d);
  std::fs::write(&p, "<pattern_file><seq_rule name=\"r\"><phrase tag=\"NP\"><match_type>shortest</match_type><starts_with_seq containment=\"any\"><seq_marker name=\"m\"><seq_word><word_any/></seq_word></seq_marker></starts_with_seq><ends_with_seq><seq_word><word>c</word></seq_word></ends_with_seq></phrase></seq_rule></pattern_file>").unwrap();
  let pf = PatternFile::load(&p).map_err(|e| println!("{}", e)).unwrap();
  let (_doc, dnm) = DNM::from_str("a b c", Some(DNMParameters::default())).unwrap();
  let words = vec![Word::new("a", POS::NN, 0, 1, 0), Word::new("b", POS::NN, 2, 3, 1), Word::new("c", POS::NN, 4, 5, 2)];
  let tree = PSGNode::parent(Phrase::S, vec![PSGNode::parent(Phrase::NP, vec![PSGNode::parent(Phrase::NP, vec![PSGNode::Leaf(0), PSGNode::Leaf(1)]), PSGNode::Leaf(2)])]);
  let s = Sentence::build("a b c", words, Some(tree));
  let range = dnm.get_range().unwrap();
  let m = match_sentence(&pf, &s, &range, "r").unwrap();
  assert_eq!(m.len(), 1);
}
''')
