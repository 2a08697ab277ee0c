//! Hash-consed bit-vector expressions over 8-bit symbolic variables.
//!
//! An expression that depends on exactly one variable carries its full 256-entry value table, so
//! that a branch on it is decided exactly from the variable's current domain (a 256-bit set).
//! Everything that mixes variables goes to Z3.
use crate::ir::{sext, Bin};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Tab = Rc<[u64; 256]>;
pub type Dom = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  Var,      // a = variable index
  Const,    // val
  Bin(Bin),
  Eq, Ult, Ule, Slt, Sle,
  Ite,
  Concat,          // a = high, b = low
  Extract(u32),    // low bit; width = node width
  ZExt, SExt,
  Lut,             // single variable, table only (a = unique id)
}

pub struct Node {
  pub op: Op,
  pub w: u32,
  pub a: E,
  pub b: E,
  pub c: E,
  pub val: u128,
  pub sup: u128,
  pub tab: Option<Tab>,
  pub bits: Dom, // for width 1 single variable nodes: set of values for which it is true
}

pub struct Ctx {
  pub nodes: Vec<Node>,
  cons: HashMap<(Op, u32, E, E, E, u128), E>,
  bytab: HashMap<(u32, u32, Rc<[u64; 256]>), E>,
  luts: u32,
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
  unsafe {
    if CTX.is_none() { CTX = Some(Ctx { nodes: vec![], cons: HashMap::new(), bytab: HashMap::new(), luts: 0 }); let c = CTX.as_mut().unwrap(); c.raw(Op::Const, 1, 0, 0, 0, 0); }
    CTX.as_mut().unwrap()
  }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn dom_has(d: &Dom, v: u8) -> bool { d[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_andn(a: &Dom, b: &Dom) -> Dom { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn dom_empty(a: &Dom) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn dom_count(a: &Dom) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn dom_first(a: &Dom) -> u8 { for i in 0..4 { if a[i] != 0 { return (i as u32 * 64 + a[i].trailing_zeros()) as u8; } } 0 }
pub fn dom_iter(a: &Dom) -> impl Iterator<Item = u8> + '_ { (0..=255u8).filter(move |v| dom_has(a, *v)) }

pub fn eval_bin(op: Bin, w: u32, a: u128, b: u128) -> u128 {
  let m = mask(w);
  let sx = |x: u128| -> i128 { if w >= 128 { x as i128 } else { let s = 128 - w; ((x << s) as i128) >> s } };
  let r = match op {
    Bin::Add => a.wrapping_add(b),
    Bin::Sub => a.wrapping_sub(b),
    Bin::Mul => a.wrapping_mul(b),
    Bin::UDiv => if b == 0 { m } else { a / b },
    Bin::URem => if b == 0 { a } else { a % b },
    Bin::SDiv => if b == 0 { m } else { sx(a).wrapping_div(sx(b)) as u128 },
    Bin::SRem => if b == 0 { a } else { sx(a).wrapping_rem(sx(b)) as u128 },
    Bin::Shl => if b >= w as u128 { 0 } else { a << b },
    Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
    Bin::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sx(a) >> s) as u128 },
    Bin::And => a & b,
    Bin::Or => a | b,
    Bin::Xor => a ^ b,
  };
  r & m
}

impl Ctx {
  fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, val: u128) -> E {
    if let Some(e) = self.cons.get(&(op, w, a, b, c, val)) { return *e; }
    let sup = match op {
      Op::Var => 1u128 << a,
      Op::Const => 0,
      Op::Lut => unreachable!(),
      _ => self.nodes[a as usize].sup | self.nodes[b as usize].sup | self.nodes[c as usize].sup,
    };
    let mut node = Node { op, w, a, b, c, val, sup, tab: None, bits: [0; 4] };
    if sup.count_ones() == 1 && w <= 64 {
      let mut t = [0u64; 256];
      for x in 0..256usize { t[x] = self.node_val_at(&node, x as u8); }
      if t.iter().all(|v| *v == t[0]) {
        let r = self.konst(w, t[0] as u128);
        self.cons.insert((op, w, a, b, c, val), r);
        return r;
      }
      let var = sup.trailing_zeros();
      let rt: Tab = Rc::new(t);
      if let Some(e) = self.bytab.get(&(var, w, rt.clone())) {
        let e = *e;
        self.cons.insert((op, w, a, b, c, val), e);
        return e;
      }
      if w == 1 { for x in 0..256usize { if t[x] == 1 { node.bits[x >> 6] |= 1 << (x & 63); } } }
      self.bytab.insert((var, w, rt.clone()), self.nodes.len() as u32);
      node.tab = Some(rt);
    }
    let e = self.nodes.len() as u32;
    self.nodes.push(node);
    self.cons.insert((op, w, a, b, c, val), e);
    e
  }
  /// value of a child at x; children are constants or single-variable
  fn val_at(&self, e: E, x: u8) -> u128 {
    let n = &self.nodes[e as usize];
    if let Op::Const = n.op { return n.val; }
    if let Some(t) = &n.tab { return t[x as usize] as u128; }
    // single-variable but wide (>64 bits)
    self.node_val_wide(n, x)
  }
  fn node_val_at(&self, n: &Node, x: u8) -> u64 { self.node_val_wide(n, x) as u64 }
  fn node_val_wide(&self, n: &Node, x: u8) -> u128 {
    match n.op {
      Op::Var => x as u128,
      Op::Const => n.val,
      Op::Lut => n.tab.as_ref().unwrap()[x as usize] as u128,
      _ => {
        let a = self.val_at(n.a, x);
        let b = self.val_at(n.b, x);
        let c = if let Op::Ite = n.op { self.val_at(n.c, x) } else { 0 };
        self.apply(n, a, b, c)
      },
    }
  }
  fn apply(&self, n: &Node, a: u128, b: u128, c: u128) -> u128 {
    let wa = self.nodes[n.a as usize].w;
    let sx = |x: u128, w: u32| -> i128 { if w >= 128 { x as i128 } else { let s = 128 - w; ((x << s) as i128) >> s } };
    match n.op {
      Op::Bin(o) => eval_bin(o, n.w, a, b),
      Op::Eq => (a == b) as u128,
      Op::Ult => (a < b) as u128,
      Op::Ule => (a <= b) as u128,
      Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
      Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
      Op::Ite => if a == 1 { b } else { c },
      Op::Concat => ((a << self.nodes[n.b as usize].w) | b) & mask(n.w),
      Op::Extract(lo) => (a >> lo) & mask(n.w),
      Op::ZExt => a,
      Op::SExt => (sx(a, wa) as u128) & mask(n.w),
      _ => unreachable!(),
    }
  }
  pub fn konst(&mut self, w: u32, v: u128) -> E { self.raw(Op::Const, w, 0, 0, 0, v & mask(w)) }
  pub fn var(&mut self, v: u32) -> E { self.raw(Op::Var, 8, v, 0, 0, 0) }
  pub fn lut(&mut self, var: u32, w: u32, t: [u64; 256]) -> E {
    if t.iter().all(|v| *v == t[0]) { return self.konst(w, t[0] as u128); }
    let rt: Tab = Rc::new(t);
    if let Some(e) = self.bytab.get(&(var, w, rt.clone())) { return *e; }
    let mut node = Node { op: Op::Lut, w, a: self.luts, b: 0, c: 0, val: 0, sup: 1u128 << var, tab: None, bits: [0; 4] };
    self.luts += 1;
    if w == 1 { for x in 0..256usize { if rt[x] == 1 { node.bits[x >> 6] |= 1 << (x & 63); } } }
    let e = self.nodes.len() as u32;
    self.bytab.insert((var, w, rt.clone()), e);
    node.tab = Some(rt);
    self.nodes.push(node);
    e
  }
  pub fn is_const(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if let Op::Const = n.op { Some(n.val) } else { None } }
  pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
  pub fn sup(&self, e: E) -> u128 { self.nodes[e as usize].sup }

  pub fn bin(&mut self, op: Bin, w: u32, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst(w, eval_bin(op, w, x, y)); }
    let (mut a, mut b) = (a, b);
    match op { Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor => if self.is_const(a).is_some() || (self.is_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b) }, _ => {} }
    if let Some(y) = self.is_const(b) {
      match op {
        Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if y == 0 => return a,
        Bin::And | Bin::Mul if y == 0 => return b,
        Bin::And if y == mask(w) => return a,
        Bin::Or if y == mask(w) => return b,
        Bin::Mul | Bin::UDiv if y == 1 => return a,
        _ => {},
      }
      // (x op c1) op c2 for add/xor
      let n = &self.nodes[a as usize];
      if n.op == Op::Bin(op) && matches!(op, Bin::Add | Bin::Xor) {
        if let Some(z) = self.is_const(n.b) {
          let na = n.a;
          let k = self.konst(w, eval_bin(op, w, y, z));
          return self.bin(op, w, na, k);
        }
      }
      // and with a byte-aligned low mask
      if op == Bin::And && (y + 1).is_power_of_two() {
        let k = (y + 1).trailing_zeros();
        let x = self.extract(a, 0, k);
        return self.zext(x, w);
      }
      // shifts of zero-extended/concatenated values by constants
      if op == Bin::LShr && y < w as u128 {
        let x = self.extract(a, y as u32, w - y as u32);
        return self.zext(x, w);
      }
      if op == Bin::Shl && y < w as u128 {
        let x = self.extract(a, 0, w - y as u32);
        let z = self.konst(y as u32, 0);
        return self.concat(x, z);
      }
    }
    if a == b {
      match op { Bin::And | Bin::Or => return a, Bin::Xor | Bin::Sub => return self.konst(w, 0), _ => {} }
    }
    // or of disjoint concat pieces:  (hi ++ 0) | zext(lo)
    if op == Bin::Or && w > 1 {
      if let Some(r) = self.or_pieces(w, a, b) { return r; }
      if let Some(r) = self.or_pieces(w, b, a) { return r; }
    }
    self.raw(Op::Bin(op), w, a, b, 0, 0)
  }
  fn or_pieces(&mut self, w: u32, a: E, b: E) -> Option<E> {
    let n = &self.nodes[a as usize];
    if n.op == Op::Concat {
      let (hi, lo) = (n.a, n.b);
      if self.is_const(lo) == Some(0) {
        let lw = self.w(lo);
        let bh = self.extract(b, lw, w - lw);
        let bl = self.extract(b, 0, lw);
        if self.is_const(bh) == Some(0) { return Some(self.concat(hi, bl)); }
        if self.is_const(bh).is_some() || self.nodes[bh as usize].op == Op::ZExt { let h = self.bin(Bin::Or, w - lw, hi, bh); return Some(self.concat(h, bl)); }
      }
    }
    None
  }
  pub fn not1(&mut self, a: E) -> E { let one = self.konst(1, 1); self.bin(Bin::Xor, 1, a, one) }
  pub fn eq(&mut self, a: E, b: E) -> E {
    if a == b { return self.konst(1, 1); }
    if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst(1, (x == y) as u128); }
    let (mut a, mut b) = (a, b);
    if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
    let n = &self.nodes[a as usize];
    if let Some(y) = self.is_const(b) {
      match n.op {
        Op::Concat => {
          let (h, l) = (n.a, n.b);
          let (wh, wl) = (self.w(h), self.w(l));
          let ch = self.konst(wh, y >> wl);
          let cl = self.konst(wl, y);
          let e1 = self.eq(h, ch);
          if self.is_const(e1) == Some(0) { return e1; }
          let e2 = self.eq(l, cl);
          return self.bin(Bin::And, 1, e1, e2);
        },
        Op::ZExt => {
          let x = n.a;
          let wx = self.w(x);
          if y >> wx != 0 { return self.konst(1, 0); }
          let k = self.konst(wx, y);
          return self.eq(x, k);
        },
        Op::Ite => {
          let (c, t, f) = (n.a, n.b, n.c);
          if let (Some(x), Some(z)) = (self.is_const(t), self.is_const(f)) {
            return match (x == y, z == y) { (true, true) => self.konst(1, 1), (true, false) => c, (false, true) => self.not1(c), _ => self.konst(1, 0) };
          }
        },
        _ => {},
      }
      if n.w == 1 { return if y == 1 { a } else { self.not1(a) }; }
    } else {
      if n.op == Op::Concat && self.nodes[b as usize].op == Op::Concat {
        let m = &self.nodes[b as usize];
        if self.w(n.a) == self.w(m.a) {
          let (h1, l1, h2, l2) = (n.a, n.b, m.a, m.b);
          let e1 = self.eq(h1, h2);
          let e2 = self.eq(l1, l2);
          return self.bin(Bin::And, 1, e1, e2);
        }
      }
      if a > b { std::mem::swap(&mut a, &mut b); }
    }
    self.raw(Op::Eq, 1, a, b, 0, 0)
  }
  pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
      let n = Node { op, w: 1, a, b, c: 0, val: 0, sup: 0, tab: None, bits: [0; 4] };
      let r = self.apply(&n, x, y, 0);
      return self.konst(1, r);
    }
    if a == b { return self.konst(1, matches!(op, Op::Ule | Op::Sle) as u128); }
    self.raw(op, 1, a, b, 0, 0)
  }
  pub fn ite(&mut self, c: E, a: E, b: E) -> E {
    if let Some(x) = self.is_const(c) { return if x == 1 { a } else { b }; }
    if a == b { return a; }
    let w = self.w(a);
    if w == 1 {
      if self.is_const(a) == Some(1) && self.is_const(b) == Some(0) { return c; }
      if self.is_const(a) == Some(0) && self.is_const(b) == Some(1) { return self.not1(c); }
      if self.is_const(a) == Some(1) { return self.bin(Bin::Or, 1, c, b); }
      if self.is_const(b) == Some(0) { return self.bin(Bin::And, 1, c, a); }
      if self.is_const(a) == Some(0) { let n = self.not1(c); return self.bin(Bin::And, 1, n, b); }
      if self.is_const(b) == Some(1) { let n = self.not1(c); return self.bin(Bin::Or, 1, n, a); }
    }
    self.raw(Op::Ite, w, c, a, b, 0)
  }
  pub fn concat(&mut self, hi: E, lo: E) -> E {
    let w = self.w(hi) + self.w(lo);
    if let (Some(x), Some(y)) = (self.is_const(hi), self.is_const(lo)) { return self.konst(w, (x << self.w(lo)) | y); }
    if self.is_const(hi) == Some(0) { return self.zext(lo, w); }
    let (h, l) = (&self.nodes[hi as usize], &self.nodes[lo as usize]);
    if let (Op::Extract(p), Op::Extract(q)) = (h.op, l.op) {
      if h.a == l.a && q + l.w == p { let x = h.a; return self.extract(x, q, w); }
    }
    if let (Op::Extract(p), true) = (h.op, h.a == lo) { if p == l.w { return self.extract(lo, 0, w); } }
    // right-associate:  (a ++ b) ++ c  =>  a ++ (b ++ c)
    if h.op == Op::Concat { let (a, b) = (h.a, h.b); let r = self.concat(b, lo); return self.concat(a, r); }
    if let (Op::ZExt, Op::Concat) = (l.op, Op::Concat) { let _ = (); }
    self.raw(Op::Concat, w, hi, lo, 0, 0)
  }
  pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
    let n = &self.nodes[a as usize];
    if lo == 0 && w == n.w { return a; }
    match n.op {
      Op::Const => { let v = n.val >> lo; return self.konst(w, v); },
      Op::Extract(l2) => { let x = n.a; return self.extract(x, lo + l2, w); },
      Op::Concat => {
        let (h, l) = (n.a, n.b);
        let lw = self.w(l);
        if lo >= lw { return self.extract(h, lo - lw, w); }
        if lo + w <= lw { return self.extract(l, lo, w); }
        let x = self.extract(h, 0, lo + w - lw);
        let y = self.extract(l, lo, lw - lo);
        return self.concat(x, y);
      },
      Op::ZExt => {
        let x = n.a;
        let xw = self.w(x);
        if lo >= xw { return self.konst(w, 0); }
        if lo + w <= xw { return self.extract(x, lo, w); }
        let y = self.extract(x, lo, xw - lo);
        return self.zext(y, w);
      },
      Op::SExt => { let x = n.a; let xw = self.w(x); if lo + w <= xw { return self.extract(x, lo, w); } },
      Op::Ite => {
        let (c, x, y) = (n.a, n.b, n.c);
        if self.is_const(x).is_some() || self.is_const(y).is_some() { let x = self.extract(x, lo, w); let y = self.extract(y, lo, w); return self.ite(c, x, y); }
      },
      Op::Bin(o @ (Bin::And | Bin::Or | Bin::Xor)) => {
        let (x, y) = (n.a, n.b);
        let x = self.extract(x, lo, w);
        let y = self.extract(y, lo, w);
        return self.bin(o, w, x, y);
      },
      Op::Bin(o @ (Bin::Add | Bin::Sub | Bin::Mul)) if lo == 0 => {
        let (x, y) = (n.a, n.b);
        let x = self.extract(x, 0, w);
        let y = self.extract(y, 0, w);
        return self.bin(o, w, x, y);
      },
      _ => {},
    }
    self.raw(Op::Extract(lo), w, a, 0, 0, 0)
  }
  pub fn zext(&mut self, a: E, w: u32) -> E {
    let n = &self.nodes[a as usize];
    if n.w == w { return a; }
    match n.op {
      Op::Const => { let v = n.val; return self.konst(w, v); },
      Op::ZExt => { let x = n.a; return self.zext(x, w); },
      _ => {},
    }
    self.raw(Op::ZExt, w, a, 0, 0, 0)
  }
  pub fn sext(&mut self, a: E, w: u32) -> E {
    let n = &self.nodes[a as usize];
    if n.w == w { return a; }
    match n.op {
      Op::Const => { let v = sext(n.val as u64, n.w); let v = if w > 64 && n.w <= 64 { (v as i64) as i128 as u128 } else { v as u128 }; return self.konst(w, v); },
      Op::ZExt => { return { let x = n.a; self.zext(x, w) }; },
      _ => {},
    }
    self.raw(Op::SExt, w, a, 0, 0, 0)
  }
  /// evaluate under a total assignment
  pub fn eval(&self, e: E, model: &[u8]) -> u128 {
    let mut memo = HashMap::new();
    self.eval_m(e, model, &mut memo)
  }
  fn eval_m(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
    let n = &self.nodes[e as usize];
    if let Some(t) = &n.tab { return t[model[n.sup.trailing_zeros() as usize] as usize] as u128; }
    match n.op {
      Op::Const => return n.val,
      Op::Var => return model[n.a as usize] as u128,
      _ => {},
    }
    if let Some(v) = memo.get(&e) { return *v; }
    let a = self.eval_m(n.a, model, memo);
    let r = if n.op == Op::Ite {
      if a == 1 { self.eval_m(n.b, model, memo) } else { self.eval_m(n.c, model, memo) }
    } else {
      let b = self.eval_m(n.b, model, memo);
      self.apply(n, a, b, 0)
    };
    memo.insert(e, r);
    r
  }
  /// split a conjunction into conjuncts
  pub fn conjuncts(&mut self, e: E, out: &mut Vec<E>) {
    let n = &self.nodes[e as usize];
    if n.w == 1 && n.sup.count_ones() > 1 {
      if n.op == Op::Bin(Bin::And) { let (a, b) = (n.a, n.b); self.conjuncts(a, out); self.conjuncts(b, out); return; }
      // not (a or b)
      if n.op == Op::Bin(Bin::Xor) && self.is_const(n.b) == Some(1) {
        let m = &self.nodes[n.a as usize];
        if m.op == Op::Bin(Bin::Or) {
          let (a, b) = (m.a, m.b);
          let x = self.not1(a);
          let y = self.not1(b);
          self.conjuncts(x, out);
          self.conjuncts(y, out);
          return;
        }
      }
    }
    out.push(e);
  }
}
