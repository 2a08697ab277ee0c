//! Model of rust-senna: sentences are built by the harness (words, tags, phrase tree); `parse`
//! splits at ASCII spaces.
pub mod pos {
  use std::collections::HashMap;
  #[allow(non_camel_case_types)]
  #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
  pub enum POS { NN, NNS, NNP, VB, VBZ, VBD, JJ, DT, IN, CC, RB, NOT_SET }
  impl POS {
    pub fn generate_str_to_pos_map() -> HashMap<&'static str, POS> {
      let mut m = HashMap::new();
      for (s, p) in [("NN", POS::NN), ("NNS", POS::NNS), ("NNP", POS::NNP), ("VB", POS::VB), ("VBZ", POS::VBZ), ("VBD", POS::VBD), ("JJ", POS::JJ), ("DT", POS::DT), ("IN", POS::IN), ("CC", POS::CC), ("RB", POS::RB)] { m.insert(s, p); }
      m
    }
    pub fn to_str(self) -> &'static str { "POS" }
  }
}
pub mod phrase {
  use std::collections::HashMap;
  #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
  pub enum Phrase { NP, VP, PP, S, ADJP, NoLabel }
  impl Phrase {
    pub fn generate_str_to_phrase_map() -> HashMap<&'static str, Phrase> {
      let mut m = HashMap::new();
      for (s, p) in [("NP", Phrase::NP), ("VP", Phrase::VP), ("PP", Phrase::PP), ("S", Phrase::S), ("ADJP", Phrase::ADJP)] { m.insert(s, p); }
      m
    }
  }
}
pub mod sennapath { pub const SENNA_PATH: &str = "/senna"; }
pub mod sentence {
  use crate::phrase::Phrase;
  use crate::pos::POS;
  pub struct Word<'t> { string: &'t str, pos: POS, start: usize, end: usize, index: usize }
  impl<'t> Word<'t> {
    pub fn new(string: &'t str, pos: POS, start: usize, end: usize, index: usize) -> Self { Word { string, pos, start, end, index } }
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_pos(&self) -> POS { self.pos }
    pub fn get_offset_start(&self) -> usize { self.start }
    pub fn get_offset_end(&self) -> usize { self.end }
    pub fn get_index(&self) -> u32 { self.index as u32 }
  }
  pub struct PSGContent { label: Phrase, children: Vec<PSGNode> }
  impl PSGContent {
    pub fn get_label(&self) -> Phrase { self.label }
    pub fn get_children(&self) -> &[PSGNode] { &self.children }
    pub fn into_children(self) -> Vec<PSGNode> { self.children }
  }
  pub enum PSGNode { Leaf(usize), Parent(Box<PSGContent>) }
  impl PSGNode { pub fn parent(label: Phrase, children: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGContent { label, children })) } }
  pub struct Sentence<'t> { string: &'t str, words: Vec<Word<'t>>, psg: Option<PSGNode> }
  impl<'t> Sentence<'t> {
    pub fn build(string: &'t str, words: Vec<Word<'t>>, psg: Option<PSGNode>) -> Self { Sentence { string, words, psg } }
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_words(&self) -> &Vec<Word<'t>> { &self.words }
    pub fn get_psgroot(&self) -> Option<&PSGNode> { self.psg.as_ref() }
  }
}
pub mod senna {
  use crate::pos::POS;
  use crate::sentence::*;
  pub struct Senna {}
  #[derive(Clone, Copy, Default)]
  pub struct SennaParseOptions { pub pos: bool, pub psg: bool }
  impl Senna {
    pub fn new(_p: String) -> Self { Senna {} }
    pub fn parse<'t>(&mut self, s: &'t str, _o: SennaParseOptions) -> Sentence<'t> {
      let mut words = Vec::new();
      let b = s.as_bytes();
      let mut i = 0;
      while i < b.len() {
        while i < b.len() && b[i] == b' ' { i += 1; }
        let st = i;
        while i < b.len() && b[i] != b' ' { i += 1; }
        if i > st { let n = words.len(); words.push(Word::new(&s[st..i], POS::NN, st, i, n)); }
      }
      Sentence::build(s, words, None)
    }
  }
}
