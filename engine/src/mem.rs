//! Copy-on-write memory: address = object id << 32 | offset.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
  pub data: Vec<u8>,
  pub sym: Option<Box<BTreeMap<u32, E>>>,
  pub ro: bool,
}

const PG: usize = 64;
type Page = [Option<Rc<Obj>>; PG];

#[derive(Clone)]
pub struct Mem {
  pages: Vec<Rc<Page>>,
  pub next: u32,
  pub free: Vec<u32>,
}

impl Mem {
  pub fn new(first: u32) -> Mem { Mem { pages: vec![], next: first, free: vec![] } }
  pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
    let p = (id as usize) / PG;
    if p < self.pages.len() { self.pages[p][id as usize % PG].as_ref() } else { None }
  }
  pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
    let p = (id as usize) / PG;
    if p < self.pages.len() {
      if self.pages[p][id as usize % PG].is_none() { return None; }
      let pg = Rc::make_mut(&mut self.pages[p]);
      pg[id as usize % PG].as_mut().map(Rc::make_mut)
    } else { None }
  }
  pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
    let p = (id as usize) / PG;
    while self.pages.len() <= p { self.pages.push(Rc::new([const { None }; PG])); }
    Rc::make_mut(&mut self.pages[p])[id as usize % PG] = o;
  }
  pub fn alloc(&mut self, size: u64) -> u32 {
    let id = match self.free.pop() { Some(i) => i, None => { let i = self.next; self.next += 1; i } };
    self.set(id, Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false })));
    id
  }
  pub fn release(&mut self, id: u32) { self.set(id, None); self.free.push(id); }
}

impl Obj {
  #[inline]
  pub fn has_sym(&self, off: u32, n: u32) -> bool {
    match &self.sym { None => false, Some(m) => m.range(off..off + n).next().is_some() }
  }
  pub fn byte(&self, off: u32) -> E {
    if let Some(m) = &self.sym { if let Some(e) = m.get(&off) { return *e; } }
    ctx().konst(8, self.data[off as usize] as u128)
  }
  pub fn clear_sym(&mut self, off: u32, n: u32) {
    if let Some(m) = &mut self.sym {
      let ks: Vec<u32> = m.range(off..off + n).map(|x| *x.0).collect();
      for k in ks { m.remove(&k); }
      if m.is_empty() { self.sym = None; }
    }
  }
  pub fn set_byte(&mut self, off: u32, e: E) {
    match ctx().is_const(e) {
      Some(v) => { self.clear_sym(off, 1); self.data[off as usize] = v as u8; },
      None => { self.sym.get_or_insert_with(|| Box::new(BTreeMap::new())).insert(off, e); },
    }
  }
}
