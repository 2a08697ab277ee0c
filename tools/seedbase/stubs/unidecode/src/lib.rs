//! Model of unidecode: ASCII maps to itself, a few characters to their real transliterations
//! (one to many included), anything else to the empty string.
pub fn unidecode(s: &str) -> String { let mut o = String::new(); for c in s.chars() { o.push_str(unidecode_char(c)); } o }
static ASCII: [u8; 128] = { let mut a = [0u8; 128]; let mut i = 0; while i < 128 { a[i] = i as u8; i += 1; } a };
pub fn unidecode_char(c: char) -> &'static str {
  let n = c as u32;
  if n < 128 { return std::str::from_utf8(&ASCII[n as usize..n as usize + 1]).unwrap(); }
  match c {
    '\u{a0}' | '\u{2003}' | '\u{2009}' => " ",
    'é' | 'è' => "e", 'É' => "E", 'ä' => "a", 'Ä' => "A", 'ö' => "o", 'Ö' => "O", 'ü' => "u", 'ß' => "ss", 'Æ' => "AE", 'æ' => "ae", 'ﬁ' => "fi", 'ﬀ' => "ff",
    '\u{2019}' | '\u{2018}' => "'", '\u{201c}' | '\u{201d}' => "\"", '\u{2013}' => "-", '\u{2014}' => "--", '…' => "...", 'İ' => "I", 'ı' => "i", '½' => "1/2", 'α' => "a", '\u{3000}' => "  ",
    _ => "",
  }
}
