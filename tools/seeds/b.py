seed("t01-lone-mark", "T01", [("src/tokenizer.rs", "      .filter(|range| range.start < range.end)", "      .filter(|range| range.get_plaintext().contains(char::is_alphanumeric))")],
 "a sentence that consists of marks only, such as the second mark of '?!'", "the sentence is dropped, so its text is in no sentence", r'''
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::tokenizer::Tokenizer;
fn main() {
  let (_d, dnm) = DNM::from_str("Is this shown?! It is.", Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })).unwrap();
  let t = Tokenizer::default();
  let all: String = t.sentences(&dnm).iter().map(|r| r.get_plaintext().to_string()).collect();
  assert_eq!(all.replace(' ', ""), dnm.plaintext.replace(' ', ""));
}
''')
seed("t02-suffix-flag", "T02", [("src/tokenizer.rs", "                result.push(range.get_subrange(start, start + 1));\n                start += 1;", "                result.push(range.get_subrange(start, start + 1));\n                start += 1;\n                apostrophe_flag = false;"),
  ("src/tokenizer.rs", "          apostrophe_flag = false;\n          start = end;", "          start = end;")],
 "a word directly behind a contraction and a blank", "the apostrophe of a contraction is still pending at the next word, whose first letter is split off", r'''
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::tokenizer::Tokenizer;
fn main() {
  let (_d, dnm) = DNM::from_str("it isn't shown", Some(DNMParameters::default())).unwrap();
  let t = Tokenizer::default();
  let r = dnm.get_range().unwrap();
  let v: Vec<&str> = t.words_and_punct(&r).iter().map(|r| r.get_plaintext()).collect();
  assert_eq!(v, vec!["it", "isn", "'t", "shown"]);
}
''')
TREE = r'''
fn page(path: &str, body: &str) {
  std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap()).unwrap();
  std::fs::write(path, format!("<html><head></head><body>{}</body></html>", body)).unwrap();
}
fn tree(root: &str, files: &[&str]) -> Vec<String> {
  // the walkers are stand-ins which list what they are told to
  let mut es = Vec::new();
  let mut dirs = Vec::new();
  for f in files {
    let mut at = String::new();
    let parts: Vec<&str> = f.split('/').collect();
    for (i, p) in parts.iter().enumerate() {
      at = format!("{}/{}", at, p);
      let dir = i + 1 < parts.len();
      if dir { if dirs.contains(&at) { continue; } dirs.push(at.clone()); }
      es.push(vfs::Entry { path: format!("{}{}", root, at), name: p.to_string(), depth: i + 1, dir });
    }
  }
  vfs::set_tree(root, es);
  files.iter().map(|f| format!("{}/{}", root, f)).collect()
}
'''
seed("x01-xhtml-only", "X01", [("src/parallel_data/corpus.rs", """  pub fn catalog_with_parallel_walk<F>(&self, closure: F) -> HashMap<String, u64>
  where F: Fn(Document) -> HashMap<String, u64> + Send + Sync {
    ParWalkDir::new(self.path.clone())
      .num_threads(rayon::current_num_threads())
      .skip_hidden(true)
      .sort(false)
      .into_iter()
      .filter_map(|each| {
        if let Ok(entry) = each {
          let file_name = entry.file_name.to_str().unwrap_or("");
          let selected = if let Some(ref extension) = self.extension {
            file_name.ends_with(extension)""", """  pub fn catalog_with_parallel_walk<F>(&self, closure: F) -> HashMap<String, u64>
  where F: Fn(Document) -> HashMap<String, u64> + Send + Sync {
    ParWalkDir::new(self.path.clone())
      .num_threads(rayon::current_num_threads())
      .skip_hidden(true)
      .sort(false)
      .into_iter()
      .filter_map(|each| {
        if let Ok(entry) = each {
          let file_name = entry.file_name.to_str().unwrap_or("");
          let selected = if let Some(ref extension) = self.extension {
            file_name.trim_end_matches(extension.as_str()).ends_with('.') || (extension.starts_with('.') && file_name.ends_with(extension))""")],
 "an extension given without its dot, and a file whose name only ends with these letters", "the parallel walk leaves out selected files which the serial walk visits", TREE + r'''
use llamapun::{data, parallel_data};
use std::collections::HashMap;
fn main() {
  let root = std::env::args().nth(1).unwrap() + "/c";
  let fs = tree(&root, &["a.html", "b.xhtml", "c/d.txt"]);
  for f in &fs { page(f, "<div class=\"ltx_para\">x</div>") }
  let mut s = data::Corpus::new(root.clone());
  s.extension = Some("html".to_string());
  assert_eq!(s.iter().count(), 2);
  let mut p = parallel_data::Corpus::new(root);
  p.extension = Some("html".to_string());
  let m = p.catalog_with_parallel_walk(|d| { let mut m = HashMap::new(); m.insert(d.path.clone(), 1); m });
  assert_eq!(m.len(), 2);
}
''')
seed("x01-shallow", "X01", [("src/data.rs", "      walker: Box::new(WalkDir::new(self.path.clone()).into_iter()),", "      walker: Box::new(WalkDir::new(self.path.clone()).min_depth(1).max_depth(2).into_iter()),")],
 "a document three or more levels below the corpus directory", "the serial walk does not descend to it", TREE + r'''
use llamapun::data;
fn main() {
  let root = std::env::args().nth(1).unwrap() + "/c";
  let fs = tree(&root, &["a.html", "b/c.html", "d/e/f.html"]);
  for f in &fs { page(f, "<div class=\"ltx_para\">x</div>") }
  let mut s = data::Corpus::new(root.clone());
  let mut v: Vec<String> = s.iter().map(|d| d.path.clone()).collect();
  v.sort();
  assert_eq!(v, fs);
}
''')
seed("x02-dropped-keys", "X02", [("src/parallel_data/corpus.rs", """      .reduce(HashMap::new, |mut map1, map2| {
        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1
      })
  }

""", """      .reduce(HashMap::new, |mut map1, map2| {
        if map1.is_empty() {
          return map2;
        }
        for (k, v) in map1.iter_mut() {
          *v += map2.get(k).copied().unwrap_or(0);
        }
        map1
      })
  }

""")],
 "a key that an earlier document did not report, next to one it did", "counts under keys which the partial result does not have yet are lost, depending on the schedule", TREE + r'''
use llamapun::parallel_data;
use std::collections::HashMap;
fn main() {
  let root = std::env::args().nth(1).unwrap() + "/c";
  let fs = tree(&root, &["a.html", "b.html", "d.html"]);
  for f in &fs { page(f, "<div class=\"ltx_para\">x</div>") }
  let p = parallel_data::Corpus::new(root);
  for order in [vec![], vec![1], vec![2], vec![1, 1]] {
    vfs::set_schedule(order);
    let m = p.catalog_with_parallel_walk(|d| { let mut m = HashMap::new(); if d.path.ends_with("b.html") { m.insert("odd".to_string(), 2); } m.insert("all".to_string(), 1); m });
    assert_eq!((m.len(), m.get("odd"), m.get("all")), (2, Some(&2), Some(&3)));
  }
}
''')
seed("x03-nearest-error", "X03", [("src/parallel_data/document.rs", "    Document::xpath_nodes(doc,\n      \"//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')]) and not(preceding-sibling::*[contains(@class,'ltx_ERROR')])]\"",
  "    Document::xpath_nodes(doc,\n      \"//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')]) and not(preceding-sibling::*[1][contains(@class,'ltx_ERROR')])]\"")],
 "an error element further in front of the paragraph, with another element in between", "such a paragraph is yielded by the parallel document", TREE + r'''
use llamapun::{data, parallel_data};
fn main() {
  let f = std::env::args().nth(1).unwrap() + "/d.xhtml";
  page(&f, "<span class=\"ltx_ERROR\">e</span><p>x</p><div class=\"ltx_para\">one</div><section><div class=\"ltx_para\">two</div></section>");
  let sc = data::Corpus::new(".".to_string());
  let pc = parallel_data::Corpus::new(".".to_string());
  let mut s = sc.load_doc(f.clone()).ok().unwrap();
  let p = parallel_data::Document::new(f, &pc).ok().unwrap();
  let a: Vec<String> = s.paragraph_iter().map(|p| p.dnm.plaintext.clone()).collect();
  let b: Vec<String> = p.paragraph_iter().map(|p| p.dnm.plaintext.clone()).collect();
  assert_eq!((a, b), (vec!["two".to_string()], vec!["two".to_string()]));
}
''')
seed("x04-senna-characters", "X04", [("src/data.rs", "        .get_subrange_from_byte_offsets(senna_word.get_offset_start(), senna_word.get_offset_end());", "        .get_subrange(senna_word.get_offset_start(), senna_word.get_offset_end());")],
 "a senna word behind a character of more than one byte in the same sentence", "senna's byte offsets are taken for characters, so the word is shifted", TREE + r'''
use llamapun::data;
fn main() {
  let f = std::env::args().nth(1).unwrap() + "/d.xhtml";
  page(&f, "<div class=\"ltx_para\">First one. Then \u{e9}t\u{e9} 中 comes here</div>");
  let mut sc = data::Corpus::new(".".to_string());
  sc.dnm_parameters.normalize_unicode = false;
  let mut d = sc.load_doc(f).ok().unwrap();
  let mut v = Vec::new();
  for mut s in d.sentence_iter() { let t = s.range.get_plaintext().to_string(); let w: Vec<String> = s.senna_iter().map(|w| w.range.get_plaintext().to_string()).collect(); assert_eq!(w.join(" "), t); v.extend(w) }
  assert_eq!(v.len(), 7);
}
''')
seed("x05-stale-overflow", "X05", [("src/util/token_model.rs", "    let mut context = Context::new(&document.dom).unwrap();", "    let mut context = Context::new(&document.dom).unwrap();\n    let mut invalid_paragraph = false;"),
  ("src/util/token_model.rs", "      let mut paragraph_buffer = String::new();\n      let mut invalid_paragraph = false;", "      let mut paragraph_buffer = String::new();")],
 "a paragraph behind one with an overlong word in the same document", "all paragraphs behind it are left out of the model", TREE + r'''
use llamapun::util::token_model;
fn main() {
  let dir = std::env::args().nth(1).unwrap();
  let root = dir.clone() + "/c";
  let fs = tree(&root, &["a.xhtml"]);
  page(&fs[0], "<div class=\"ltx_para\">One two</div><div class=\"ltx_para\">Abcdefghijklmnopqrstuvwxyzabcdef x</div><div class=\"ltx_para\">Three 4</div>");
  let m = dir + "/model.txt";
  let c = token_model::extract(root, m.clone(), false).unwrap();
  assert_eq!((c["paragraph_count"], c["word_count"], c["overflow_count"], c["num_count"]), (3, 3, 1, 1));
  assert_eq!(std::fs::read_to_string(m).unwrap(), "\none two \nthree NUM ");
}
''')
seed("x06-broken-sentence", "X06", [("src/util/path_helpers.rs", """            Err(_) => {
              invalid_paragraph = true;
              break 'sentences;
            },""", """            Err(_) => {
              invalid_paragraph = sentence_buffer.is_empty();
              break 'sentences;
            },""")],
 "an overlong word which is not the first word of its sentence", "the sentences in front of it are kept, so a broken paragraph is returned", TREE + r'''
use llamapun::util::path_helpers;
fn main() {
  let f = std::env::args().nth(1).unwrap() + "/d.xhtml";
  page(&f, "<div class=\"ltx_para\">One is here. Then abcdefghijklmnopqrstuvwxyzabcdef x</div><div class=\"ltx_para\">Two is 7</div>");
  assert_eq!(path_helpers::path_to_words(f), "two is NUM \n");
}
''')
seed("u01-exponent", "U01", [("src/util/data_helpers.rs", 'Regex::new(r"^-?(?:\\d+)(?:[a-k]|(?:\\.\\d+(?:[eE][+-]?\\d+)?))?$").unwrap();', 'Regex::new(r"^-?(?:\\d+)(?:[a-k]|(?:\\.\\d+(?:e[+-]?\\d+)?))?$").unwrap();')],
 "a float with an uppercase exponent, normalized without discarding case and punctuation", "such a number is not recognized as NUM", r'''
use libxml::xpath::Context;
use llamapun::dnm::DNM;
use llamapun::util::data_helpers::*;
fn norm(s: &str) -> String {
  let (d, dnm) = DNM::from_str(s, None).unwrap();
  let mut c = Context::new(&d).unwrap();
  ams_normalize_word_range(&dnm.get_range().unwrap(), &mut c, LexicalOptions { discard_math: false, discard_punct: false, discard_case: false }).unwrap()
}
fn main() {
  assert_eq!(norm("1.5e-3"), "NUM");
  assert_eq!(norm("1.5E-3"), "NUM");
  assert_eq!(norm("Word"), "Word");
}
''')
seed("u02-number-inside", "U02", [("src/util/data_helpers.rs", 'IS_NUM.replace_all(simple_heading.trim(), " ");', 'IS_NUM.replace(simple_heading.trim(), " ");'),
  ("src/util/data_helpers.rs", 'Regex::new(r"\\s*NUM\\s*").unwrap();', 'Regex::new(r"^\\s*NUM\\s*|\\s*NUM\\s*$").unwrap();')],
 "NUM between two words of a heading", "the number stays in the heading's normal form", r'''
use llamapun::util::data_helpers::normalize_heading_title;
fn main() {
  assert_eq!(normalize_heading_title("NUM zebra"), "zebra");
  assert_eq!(normalize_heading_title("zebra NUM"), "zebra");
  assert_eq!(normalize_heading_title("zebra NUM crossing"), "zebra crossing");
  assert_eq!(normalize_heading_title("NUM NUM theorem NUM"), "theorem");
}
''')
seed("a01-class-name", "A01", [("src/ams.rs", 'Regex::new(r"ltx_theorem_(\\w+)").unwrap();', 'Regex::new(r"ltx_theorem_([a-zA-Z]+)").unwrap();')],
 "an environment name with a digit in it", "only the letters in front of the digit are taken for the name", r'''
use llamapun::ams::*;
fn main() {
  assert_eq!(class_to_env("ltx_theorem ltx_theorem_thm"), Some(AmsEnv::Theorem));
  // authors number their environments; 'ax2' is none of the listed names, 'ax' is an assumption
  for n in ["thm1", "prop2", "defn5", "ax2", "c1x", "case1"] {
    assert_eq!(class_to_env(&format!("ltx_theorem_{}", n)), Some(normalize_env(n)), "{}", n);
  }
}
''')
