//! Model of rustmorpha: `stem` drops one 's' at the end of every word, `full_stem` all of them, and
//! puts the text in small letters. Whitespace is kept.
fn drop(s: &str, all: bool) -> String {
  let mut o = String::new();
  let cs: Vec<char> = s.chars().collect();
  let mut i = 0;
  while i < cs.len() {
    let mut word = String::new();
    let mut esses = 0;
    while i < cs.len() && !cs[i].is_whitespace() {
      if cs[i] == 's' { esses += 1 } else { esses = 0 }
      word.push(cs[i]);
      i += 1;
    }
    let mut off = if all { esses } else { esses.min(1) };
    // something remains of each word
    if off == word.len() && off > 0 { off -= 1 }
    word.truncate(word.len() - off);
    o.push_str(&word);
    if i < cs.len() { o.push(cs[i]); i += 1 }
  }
  o
}
pub fn stem(s: &str) -> String { drop(s, false) }
pub fn full_stem(s: &str) -> String { drop(&s.to_lowercase(), true) }
pub fn close() {}
