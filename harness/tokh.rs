// Sentence and word tokenization (src/tokenizer.rs)
use crate::common::*;
use crate::stops::STOPS;
use crate::*;
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;

pub fn raw(text: &str) -> (libxml::tree::Document, DNM) {
  let (d, dnm) = DNM::from_str(text, Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })).unwrap();
  assume(dnm.plaintext == text);
  (d, dnm)
}

const CHARS: &[char] = &['a', 'B', '1', ' ', '\n', '.', '?', '\'', 'É', '中', '\u{3000}', '('];
const AZ: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z'];
const PIECES: &[&str] = &["Word", "word", "The", "Fig", "x", "I", "mathformula", ".", ":", "?", "!", "\n", " ", "(", ")", "\"", "'", "12345678901", "Wordwordwordwordwordwordy", "Étude", "中", "\u{a0}", "-"];
const SMALL: &[&str] = &["Word", "fig", "A", "mathformula", ".", "?", "\n", " ", "é9"];

/// sentences are non-empty, in order, disjoint, trimmed; only blanks and a letterless tail are left out
fn sentence_invariants(t: &[char], ss: &[DNMRange]) {
  let mut at = 0;
  for s in ss {
    check(s.start < s.end && s.end <= t.len(), "a sentence is a non-empty range of the text");
    check(s.start >= at, "sentences are in order and disjoint");
    check(t[at..s.start].iter().all(|c| c.is_whitespace()), "only whitespace is left out between sentences");
    check(!t[s.start].is_whitespace() && !t[s.end - 1].is_whitespace(), "sentences are trimmed");
    at = s.end;
  }
  check(!t[at..].iter().any(|c| c.is_alphabetic()), "no letter is left out after the last sentence");
  if ss.len() > 1 { reach("several sentences"); }
  if ss.len() == 1 { reach("one sentence"); }
  if !t.is_empty() && at < t.len() { reach("text after the last sentence"); }
}

/// params: number of parts, kind (0 single characters, 1 pieces, 2 few pieces)
pub fn sentences() {
  let tok = Tokenizer::default();
  let n = param(0);
  let mut text = String::new();
  match param(1) {
    0 => text = string_upto(CHARS, n),
    1 => for _ in 0..n { text.push_str(one_of(PIECES)); },
    3 => text = string_upto(WIDE, n),
    // p2 characters in front, without or with breaks
    4 => { let body = if flag() { "lorem é " } else { "Lorem é. " }; text = body.chars().cycle().take(param(2)).collect(); for _ in 0..n { text.push_str(one_of(SMALL)); } if text.chars().count() > 250 { reach("long text") } },
    _ => for _ in 0..n { text.push_str(one_of(SMALL)); },
  }
  let t: Vec<char> = text.chars().collect();
  let (_d, dnm) = raw(&text);
  let ss = tok.sentences(&dnm);
  for s in &ss { emit(s.start as u32, s.end as u64); }
  sentence_invariants(&t, &ss);
}

/// words: maximal runs of alphanumerics and apostrophes in front of an s; tokens with punctuation:
/// alphanumeric runs, single other characters, whitespace skipped.  params: n, what, alphabet
pub fn words() {
  let tok = Tokenizer::default();
  let n = param(0);
  let alpha: &[char] = match param(2) {
    0 => &['a', 's', '1', ' ', '\'', '’', '.', 'é', '中', '\u{a0}'],
    1 => &['s', 't', 'd', 'u', 'n', '\'', ' ', '’', 'T'],
    3 => WIDE,
    _ => AZ,
  };
  let mut body = string_upto(alpha, n);
  if param(2) == 2 {
    // a contraction with any letters behind the apostrophe
    body = format!("{}{}{}", one_of(&["", "x"]), one_of(&["'", "’"]), body);
    body.push_str(one_of(&["", " a", "s"]));
  }
  // p3 characters in front
  if param(3) > 0 { body = "lorem's é, ".chars().cycle().take(param(3)).collect::<String>() + &body; reach("long sentence") }
  let text = format!("É. {}. b", body);
  let all: Vec<char> = text.chars().collect();
  let (_d, dnm) = raw(&text);
  let len = body.chars().count();
  let r = DNMRange { start: 3, end: 3 + len, dnm: &dnm };
  let t = &all[3..3 + len];
  let apos = |c: char| c == '\'' || c == '’';
  let mut want: Vec<(usize, usize)> = Vec::new();
  let got;
  if param(1) == 0 {
    let mut i = 0;
    while i < len {
      let inword = |k: usize| t[k].is_alphanumeric() || (apos(t[k]) && k + 1 < len && t[k + 1] == 's');
      if !inword(i) { i += 1; continue; }
      let from = i;
      while i < len && inword(i) { i += 1; }
      want.push((3 + from, 3 + i));
    }
    got = tok.words(&r);
  } else {
    let mut i = 0;
    while i < len {
      let c = t[i];
      let from = i;
      i += 1;
      if c.is_whitespace() { continue; }
      let run = |mut k: usize| { while k < len && t[k].is_alphanumeric() { k += 1; } k };
      if c.is_alphanumeric() { i = run(i); }
      else if apos(c) {
        let e = run(i);
        let suffix: String = t[i..e].iter().collect();
        if ["t", "s", "un", "th", "ll", "d", "ve", "il", "re", "m"].contains(&suffix.as_str()) { i = e; reach("apostrophe suffix"); }
      }
      want.push((3 + from, 3 + i));
    }
    got = tok.words_and_punct(&r);
  }
  for g in &got { emit(g.start as u32, g.end as u64); }
  if want.len() > 1 { reach("several words"); }
  check(got.len() == want.len(), "exactly the words of the sentence are found");
  for (g, w) in got.iter().zip(&want) { check(g.start == w.0 && g.end == w.1, "each word has the characters of its run"); }
}

/// where sentences are broken.  The text is `left mark gap right tail`; params: group of left words,
/// which marks
const ABBR: &[&str] = &["al", "cf", "cl", "co", "ct", "dr", "eq", "ft", "fy", "jr", "la", "lt", "mr", "ms", "mt", "no", "pd", "pl", "rd", "sr", "st", "vs", "Al", "Cf", "Cl", "Co", "Ct", "Dr", "Eq", "Ft", "Fy", "Ga", "Ia", "Id", "Is", "Jr", "Ky", "La", "Lt", "Md", "Me", "Mo", "Mr", "Ms", "Mt", "No", "Ok", "Pa", "Pd", "Pl", "Rd", "Sr", "St", "Ut", "Va", "Vs", "Vt", "Wy", "adm", "apr", "arc", "aug", "ave", "bld", "col", "cpl", "dec", "det", "eqs", "esp", "etc", "exp", "feb", "fig", "fwy", "gen", "gov", "hwy", "inc", "jan", "jul", "jun", "ltd", "maj", "mar", "may", "mrs", "nov", "oct", "pde", "plz", "rep", "rev", "sec", "sen", "sep", "sgt", "tce", "Adm", "Ala", "Apr", "Arc", "Ark", "Aug", "Ave", "Bld", "Cal", "Col", "Cpl", "Dak", "Dec", "Def", "Del", "Det", "Eqs", "Esp", "Etc", "Exp", "Feb", "Fed", "Fig", "Fla", "Fwy", "Gen", "Gov", "Hwy", "Ida", "Ill", "Inc", "Ind", "Jan", "Jul", "Jun", "Kan", "Ken", "Ltd", "Maj", "Man", "Mar", "May", "Mex", "Mrs", "Neb", "Nev", "Nov", "Oct", "Ont", "Ore", "Pde", "Plz", "Que", "Rep", "Rev", "Sec", "Sen", "Sep", "Sgt", "Tce", "Tex", "Thm", "Wis", "Wyo", "Yuk", "assn", "atty", "blvd", "bros", "capt", "cmdr", "corp", "cres", "dept", "dist", "expy", "hway", "prof", "reps", "resp", "sens", "sept", "supt", "univ", "Alta", "Ariz", "Assn", "Atty", "Blvd", "Bros", "Capt", "Cmdr", "Colo", "Conj", "Conn", "Corp", "Cres", "Dept", "Dist", "Expy", "Hway", "Kans", "Mass", "Mich", "Minn", "Miss", "Mont", "Nebr", "Okla", "Penn", "Prof", "Reps", "Resp", "Sask", "Sens", "Sept", "Supt", "Tenn", "Univ", "Wash", "Wisc", "Calif", "Penna", "Attys", "attys", "USAFA"];
const RIGHT: &[&str] = &["Word", "word", "The", "the", "woRd", "A", "mathformula", "Mathformula", "(ab", "\"ab", "*ab", "7ab", "Éa", "él", "I", "Wordwordwordwordwordwordy", "-Word", "[Ab", "“Ab", "1Ab", "_Ab", "aB", "İa", "中文", "MATHFORMULA", "mathformulas"];
const GAPS: &[&str] = &["", " ", "  ", "\n", "' ", " '", "\u{a0}"];

fn leading_word(s: &str) -> String { s.chars().take_while(|c| c.is_alphabetic()).collect() }

pub fn breaks() {
  let tok = Tokenizer::default();
  let known = regex::Regex::new(&format!("^(?:{})$", ABBR.join("|"))).unwrap();
  known.is_match("x");
  let left: String = match param(0) {
    0 => one_of(&["word", "Word", "mathformula", "see 12", "x", "É", "I", "a b", "e.g", "ab c", "word1", "()", "egg", "ice", "Figure", "mayor", "et alia", "profit", "seconds", "Theorem"]).to_string(),
    1 => ABBR[pick(ABBR.len())].to_string(),
    _ => {
      // every word of param(0) lowercase letters, optionally capitalized
      let n = if param(0) == 11 { 1 } else { param(0) };
      let mut w = String::new();
      const UP: &[char] = &['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z'];
      for i in 0..n { w.push(ch(if i == 0 && param(2) == 1 { UP } else { AZ })); }
      w
    },
  };
  let right = if param(0) < 2 { RIGHT[pick(RIGHT.len())] } else { one_of(&["Word", "The", "mathformula"]) };
  let gap = if param(0) < 2 { GAPS[pick(GAPS.len())] } else { " " };
  let mark = if param(1) == 0 { one_of(&[".", ":"]) } else { "." };
  let pre = "Start ";
  let text = format!("{}{}{}{}{} tail", pre, left, mark, gap, right);
  emit_str(&text);
  let (_d, dnm) = raw(&text);
  let ss = tok.sentences(&dnm);
  let t: Vec<char> = text.chars().collect();
  sentence_invariants(&t, &ss);
  let at = pre.len() + left.chars().count() + mark.len() + gap.chars().count();
  let w = leading_word(right);
  let upper = w.chars().any(|c| c.is_uppercase());
  // the word the mark is attached to
  let last: String = left.split(|c: char| !c.is_alphabetic()).last().unwrap_or("").to_string();
  let single = last.chars().count() == 1 && last != "I";
  let abbr = match param(0) { 0 => single, 1 => true, _ => single || known.is_match(&last) };
  let want = if upper {
    if tok.stopwords.contains(w.to_lowercase().as_str()) { reach("capitalized stopword"); true } else { if abbr { reach("abbreviation"); } !abbr }
  } else if matches!(right.chars().next(), Some('*') | Some('"') | Some('(')) { reach("bracket or quote"); true }
  else if mark == "." && w.to_lowercase().starts_with("mathformula") { reach("formula"); !abbr }
  else { reach("lowercase or number"); false };
  let broken = ss.iter().any(|s| s.start == at);
  check(broken == want, "a full stop or colon ends a sentence exactly as the rules say");
  if want { check(ss.iter().any(|s| t[s.end - 1] == mark.chars().next().unwrap() || t[s.end - 1] == '\''), "the mark belongs to the sentence it ends"); }
  // no other break in this text
  check(ss.len() == 1 + want as usize, "nothing else ends a sentence here");
}

/// question and exclamation marks, blank lines, formulas in front of a capital
pub fn breaks2() {
  let tok = Tokenizer::default();
  let (text, want, at);
  match param(0) {
    0 => {
      // any characters around the mark
      let al: &[char] = &['a', 'B', ' ', '(', ')', '[', ']', '{', '}', '\'', '"', '1', 'é'];
      let l = ch(al);
      let r = ch(al);
      let m = if flag() { '?' } else { '!' };
      let bounded = matches!((l, r), ('(', ')') | ('[', ']') | ('{', '}') | ('\'', '\'') | ('"', '"'));
      text = format!("ab{}{}{}cd", l, m, r);
      want = !bounded;
      at = 4 + (r == ' ') as usize;
      if bounded { reach("bracketed question mark"); } else { reach("question mark"); }
    },
    1 => {
      let left = one_of(&["word", "Fig", "x", "mathformula", "word,", "é"]);
      let gap = one_of(&["\n\n", "\n", "\n\n\n", "\n\n ", "\n \n", "\n\n\u{a0}", " \n\n"]);
      let right = one_of(&["Word", "word", "The", "mathformula", "Éa", "é", "中", "7", "(A", "wOrd", "I"]);
      let w = leading_word(right);
      text = format!("Ab {}{}{} tail", left, gap, right);
      let blank = gap.contains("\n\n");
      let first = right.chars().next().unwrap();
      let formula = left == "mathformula" && gap == "\n";
      want = if blank { !(w.is_empty() || w.starts_with("mathformula") || first.is_lowercase()) } else { formula && first.is_uppercase() };
      at = 3 + left.chars().count() + gap.chars().count();
      if blank { reach("blank line"); } else { reach("line break"); }
    },
    _ => {
      // the word after a break counts as left context for the next mark
      let w = one_of(&["Fig", "Dr", "Word", "It", "B"]);
      let sep = one_of(&["\n\n", ". ", "? "]);
      text = format!("End{}{}. Smith", sep, w);
      at = 3 + sep.len() + w.len() + 2;
      want = w == "Word" || w == "It";
      reach("mark right after the first word");
    },
  }
  emit_str(&text);
  let (_d, dnm) = raw(&text);
  let t: Vec<char> = text.chars().collect();
  let ss = tok.sentences(&dnm);
  sentence_invariants(&t, &ss);
  check(ss.iter().any(|s| s.start == at) == want, "a sentence starts here exactly if the rules say so");
}

/// several words with marks in between: every mark is judged by its own neighbours.
/// params: number of words
pub fn breaks3() {
  let tok = Tokenizer::default();
  let n = param(0);
  let (words, marks): (&[&str], &[&str]) = if param(1) == 0 { (&["Fig", "cf", "Word", "word", "The", "x", "mathformula"], &[". ", " ", ": ", "! ", ".\n", ", ", "\n"]) }
    else { (&["Fig", "Word", "mathformula"], &[". ", " ", "\n"]) };
  let ws: Vec<&str> = (0..n).map(|_| one_of(words)).collect();
  let ms: Vec<&str> = (1..n).map(|_| one_of(marks)).collect();
  // a long beginning fills the tokenizer's window
  let mut text = String::from(if param(1) == 0 { "On " } else { "Concerning these " });
  let mut want = vec![0];
  for i in 0..n {
    text.push_str(ws[i]);
    if i + 1 == n { break; }
    text.push_str(ms[i]);
    let next = ws[i + 1];
    let abbr = matches!(ws[i], "Fig" | "cf" | "x");
    let brk = match &ms[i][..1] {
      "." | ":" => if next == "The" { true } else if next == "Fig" || next == "Word" { !abbr } else { &ms[i][..1] == "." && next == "mathformula" && !abbr },
      "!" => true,
      "\n" => ws[i] == "mathformula" && matches!(next, "Fig" | "Word" | "The"),
      _ => false,
    };
    if brk && ms[i] == "\n" { reach("line break behind a formula") }
    if brk { want.push(text.chars().count()); }
  }
  text.push_str(" tail");
  emit_str(&text);
  let (_d, dnm) = raw(&text);
  let ss = tok.sentences(&dnm);
  let got: Vec<usize> = ss.iter().map(|s| s.start).collect();
  if want.len() > 2 { reach("several marks"); }
  check(got == want, "each mark ends a sentence exactly as its own neighbours say");
}

/// a capitalized stopword begins a sentence even behind an abbreviation, any other word does not.
/// params: index of the first stopword, number of them
pub fn stopwords() {
  let tok = Tokenizer::default();
  check(tok.stopwords.len() == STOPS.len(), "the stopwords are those of the list");
  let list: Vec<&str> = STOPS.iter().copied().filter(|w| w.len() <= 20 && w.chars().all(|c| c.is_alphabetic())).collect();
  let w = list[(pick(param(1)) + param(0)) % list.len()];
  let mut word: String = w.to_string();
  let whole = flag();
  if !whole { word.push('q'); }
  let up: String = word[..1].to_uppercase() + &word[1..];
  let text = format!("See Fig. {} tail", up);
  emit_str(&text);
  let (_d, dnm) = raw(&text);
  let ss = tok.sentences(&dnm);
  if whole { reach("each stopword"); } else { reach("longer than a stopword"); }
  check(ss.len() == if whole { 2 } else { 1 }, "exactly a stopword begins a sentence behind an abbreviation");
  if whole { check(ss[1].start == 9, "the sentence begins with the stopword"); }
}
