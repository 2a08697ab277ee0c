// N-gram counting and the word dictionary (src/ngrams.rs)
use crate::*;
use llamapun::ngrams::{Dictionary, Ngrams};

const LET: &[char] = &['a', 'b', 'c'];

/// Dictionary: indices 1..=count in order of first appearance
pub fn dictionary() {
  let k = param(0);
  let mut d = if param(1) == 0 { Dictionary::new() } else { Dictionary::default() };
  check(d.count() == 0 && d.sorted().is_empty(), "a new dictionary is empty");
  let mut seen: Vec<String> = Vec::new();
  // p4 many other words before, p5 letters in front of each word
  for i in 0..param(4) { let w = format!("w{}", i); d.insert(w.clone()); seen.push(w); }
  for _ in 0..k {
    // words of length 0..2 over a symbolic alphabet
    let alpha: &[char] = match param(2) { 0 => LET, 1 => &['a', 'A', ' ', 'é', '-', '1'], _ => &['a', '\0', '\u{301}', 'ß', '_', '\n', '\u{a0}', 'İ', '𝒳', '\''] };
    let w = "x".repeat(param(5)) + &string_upto(alpha, if param(3) == 0 { 2 } else { param(3) });
    d.insert(w.clone());
    if !seen.contains(&w) { seen.push(w.clone()); }
    check(d.count() == seen.len(), "count is the number of distinct words");
    check(d.map.len() == seen.len(), "one entry per distinct word");
    for (i, s) in seen.iter().enumerate() {
      check(d.map.get(s) == Some(&(i + 1)), "the i-th distinct word has index i");
    }
  }
  if seen.len() > 1 { reach("two words"); }
  if seen.len() < k + param(4) { reach("repeated word"); }
  let s = d.sorted();
  check(s.len() == seen.len(), "sorted lists every entry");
  for (i, (w, ix)) in s.iter().enumerate() {
    check(*ix == seen.len() - i, "sorted is ordered by descending index");
    check(seen[*ix - 1] == **w, "sorted pairs each word with its index");
  }
  emit(1, d.count() as u64);
  for w in &seen { emit_str(w); }
}

/// the multiset of n-grams, by the definition
fn grams(words: &[String], n: usize, out: &mut Vec<(String, usize)>) {
  if words.len() < n { return; }
  for i in 0..=(words.len() - n) {
    let key = words[i..i + n].join(" ");
    match out.iter_mut().find(|(k, _)| *k == key) { Some(e) => e.1 += 1, None => out.push((key, 1)) }
  }
}
fn compare(ng: &Ngrams, want: &[(String, usize)], what: &str) {
  check(ng.distinct_count() == want.len(), what);
  check(ng.counts.len() == want.len(), what);
  for (k, c) in want { check(ng.get(k) == *c, what); }
  check(ng.get("no such phrase") == 0, "an unseen phrase counts 0");
  let s = ng.sorted();
  check(s.len() == want.len(), "sorted lists every phrase once");
  for (k, c) in &s { check(ng.get(k) == *c, "sorted reports the counts"); }
  for i in 1..s.len() { check(s[i - 1].1 >= s[i].1, "sorted is by descending frequency"); }
  let mut total = 0;
  for (_, c) in want { total += c; }
  emit(2, total as u64);
}

/// record_words counts each contiguous n-gram of each sequence, accumulating over sequences
pub fn record() {
  let k = param(0);
  let n = param(1);
  let mut ng = Ngrams { n, ..Ngrams::default() };
  if n == 1 { let d = Ngrams::default(); check(d.n == 1 && d.window_size == 0 && d.anchor.is_none() && d.counts.is_empty(), "defaults"); }
  let mut want = Vec::new();
  // p3 letters in front of each word, p4 words of an earlier sequence
  if param(4) > 0 {
    let ws: Vec<String> = (0..param(4)).map(|i| if i % 7 == 3 { "a".to_string() } else { format!("w{}", i % 40) }).collect();
    ng.record_words(ws.iter().map(|s| s.as_str()).collect());
    grams(&ws, n, &mut want);
  }
  for _ in 0..param(2) {
    let len = pick(k + 1);
    let mut ws: Vec<String> = Vec::new();
    for _ in 0..len { ws.push("x".repeat(param(3)) + &string(&LET[..2], 1)); }
    if len < n { reach("short sequence"); }
    ng.record_words(ws.iter().map(|s| s.as_str()).collect());
    grams(&ws, n, &mut want);
    for w in &ws { emit_str(w); }
  }
  if want.iter().any(|w| w.1 > 1) { reach("repeated n-gram"); }
  compare(&ng, &want, "record_words counts exactly the contiguous n-grams");
}

/// anchored content: word i takes part iff an anchor lies within [i-W, i+W]; every maximal run of
/// such words contributes its n-grams
pub fn anchored() {
  let k = param(0);
  let n = param(1);
  let win = param(2);
  let docs = param(3);
  // '-' stands for a token that does not start with an alphanumeric character and is ignored
  let alpha: &[char] = if param(4) == 1 { &['a', 'x', '-'] } else { &['a', 'x'] };
  let mut ng = Ngrams { n, window_size: win, anchor: Some("x".to_string()), ..Ngrams::default() };
  let mut want = Vec::new();
  for _ in 0..docs {
    let len = if docs > 1 { pick(k + 1) } else { k };
    let mut content = String::new();
    let mut ws: Vec<String> = Vec::new();
    for i in 0..len {
      let w = if param(4) == 2 { one_of(&["a", "x", "xa", "ax", "X", "-x", "x-", "éa", "1", "\u{a0}x"]).to_string() } else { string(alpha, 1) };
      if i > 0 { content.push(if i == 2 { '\n' } else { ' ' }); }
      content.push_str(&w);
      if !matches!(w.as_str(), "-" | "-x" | "\u{a0}x") { ws.push(w); } else if param(4) == 2 { reach("ignored token that contains the anchor"); }
    }
    emit_str(&content);
    ng.add_content(&content);
    let mut run: Vec<String> = Vec::new();
    for i in 0..ws.len() {
      let lo = i.saturating_sub(win);
      let hi = (i + win).min(ws.len() - 1);
      let near = (lo..=hi).any(|j| ws[j] == "x");
      if near { run.push(ws[i].clone()); reach("word near an anchor"); } else { grams(&run, n, &mut want); run.clear(); reach("word away from anchors"); }
    }
    grams(&run, n, &mut want);
  }
  compare(&ng, &want, "exactly the n-grams of words within the window of an anchor are counted");
}
