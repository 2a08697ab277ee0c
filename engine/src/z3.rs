//! Minimal FFI to libz3 and the translation of expressions.
use crate::expr::*;
use crate::ir::Bin;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint};

#[repr(C)] pub struct Opaque { _p: [u8; 0] }
type P = *mut Opaque;
extern "C" {
  fn Z3_mk_config() -> P;
  fn Z3_mk_context(c: P) -> P;
  fn Z3_mk_simple_solver(c: P) -> P;
  fn Z3_solver_inc_ref(c: P, s: P);
  fn Z3_solver_push(c: P, s: P);
  fn Z3_solver_pop(c: P, s: P, n: c_uint);
  fn Z3_solver_assert(c: P, s: P, a: P);
  fn Z3_solver_check(c: P, s: P) -> c_int;
  fn Z3_solver_get_model(c: P, s: P) -> P;
  fn Z3_model_inc_ref(c: P, m: P);
  fn Z3_model_dec_ref(c: P, m: P);
  fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
  fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
  fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
  fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
  fn Z3_mk_const(c: P, s: P, t: P) -> P;
  fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
  fn Z3_mk_eq(c: P, a: P, b: P) -> P;
  fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
  fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_not(c: P, a: P) -> P;
  fn Z3_mk_concat(c: P, a: P, b: P) -> P;
  fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
  fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
  fn Z3_inc_ref(c: P, a: P);
}

pub struct Z3 { c: P, s: P, cache: HashMap<E, P>, vars: HashMap<u32, P>, pub queries: u64, pub sat: u64, pub unsat: u64, pub nanos: u64 }

impl Z3 {
  pub fn new() -> Z3 {
    unsafe {
      let cfg = Z3_mk_config();
      let c = Z3_mk_context(cfg);
      let s = Z3_mk_simple_solver(c);
      Z3_solver_inc_ref(c, s);
      Z3 { c, s, cache: HashMap::new(), vars: HashMap::new(), queries: 0, sat: 0, unsat: 0, nanos: 0 }
    }
  }
  fn num(&self, w: u32, v: u128) -> P {
    unsafe {
      if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w)) }
      else {
        let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
        let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64));
        Z3_mk_concat(self.c, hi, lo)
      }
    }
  }
  fn var(&mut self, v: u32) -> P {
    let c = self.c;
    *self.vars.entry(v).or_insert_with(|| unsafe {
      let n = CString::new(format!("in{}", v)).unwrap();
      let a = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, 8));
      Z3_inc_ref(c, a);
      a
    })
  }
  fn b2bv(&self, b: P) -> P { unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(1, 0)) } }
  fn tr(&mut self, e: E) -> P {
    if let Some(p) = self.cache.get(&e) { return *p; }
    let (op, w, a, b, cc, val) = { let n = &ctx().nodes[e as usize]; (n.op, n.w, n.a, n.b, n.c, n.val) };
    let c = self.c;
    let r = unsafe {
      match op {
        Op::Var => self.var(a),
        Op::Const => self.num(w, val),
        Op::Lut => {
          let n = &ctx().nodes[e as usize];
          let v = self.var(n.sup.trailing_zeros());
          let t = n.tab.clone().unwrap();
          // nested ite over value ranges
          let mut r = self.num(w, t[255] as u128);
          let mut x = 255usize;
          while x > 0 {
            let mut y = x - 1;
            while y > 0 && t[y - 1] == t[x - 1] { y -= 1; }
            // values y..x-1 share t[x-1]
            let bound = self.num(8, x as u128);
            let cond = Z3_mk_bvult(c, v, bound);
            let val = self.num(w, t[x - 1] as u128);
            r = Z3_mk_ite(c, cond, val, r);
            x = y;
          }
          r
        },
        Op::Bin(o) => {
          let (x, y) = (self.tr(a), self.tr(b));
          match o {
            Bin::Add => Z3_mk_bvadd(c, x, y), Bin::Sub => Z3_mk_bvsub(c, x, y), Bin::Mul => Z3_mk_bvmul(c, x, y),
            Bin::UDiv => Z3_mk_bvudiv(c, x, y), Bin::SDiv => Z3_mk_bvsdiv(c, x, y), Bin::URem => Z3_mk_bvurem(c, x, y), Bin::SRem => Z3_mk_bvsrem(c, x, y),
            Bin::Shl => Z3_mk_bvshl(c, x, y), Bin::LShr => Z3_mk_bvlshr(c, x, y), Bin::AShr => Z3_mk_bvashr(c, x, y),
            Bin::And => Z3_mk_bvand(c, x, y), Bin::Or => Z3_mk_bvor(c, x, y), Bin::Xor => Z3_mk_bvxor(c, x, y),
          }
        },
        Op::Eq => { let (x, y) = (self.tr(a), self.tr(b)); self.b2bv(Z3_mk_eq(c, x, y)) },
        Op::Ult => { let (x, y) = (self.tr(a), self.tr(b)); self.b2bv(Z3_mk_bvult(c, x, y)) },
        Op::Ule => { let (x, y) = (self.tr(a), self.tr(b)); self.b2bv(Z3_mk_bvule(c, x, y)) },
        Op::Slt => { let (x, y) = (self.tr(a), self.tr(b)); self.b2bv(Z3_mk_bvslt(c, x, y)) },
        Op::Sle => { let (x, y) = (self.tr(a), self.tr(b)); self.b2bv(Z3_mk_bvsle(c, x, y)) },
        Op::Ite => { let (x, y, z) = (self.tr(a), self.tr(b), self.tr(cc)); let k = Z3_mk_eq(c, x, self.num(1, 1)); Z3_mk_ite(c, k, y, z) },
        Op::Concat => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_concat(c, x, y) },
        Op::Extract(lo) => { let x = self.tr(a); Z3_mk_extract(c, lo + w - 1, lo, x) },
        Op::ZExt => { let x = self.tr(a); Z3_mk_zero_ext(c, w - ctx().w(a), x) },
        Op::SExt => { let x = self.tr(a); Z3_mk_sign_ext(c, w - ctx().w(a), x) },
      }
    };
    unsafe { Z3_inc_ref(c, r) };
    self.cache.insert(e, r);
    r
  }
  fn dom_ast(&mut self, v: u32, d: &Dom) -> Option<P> {
    let x = self.var(v);
    let c = self.c;
    let mut parts = vec![];
    let mut i = 0usize;
    while i < 256 {
      if dom_has(d, i as u8) {
        let st = i;
        while i < 256 && dom_has(d, i as u8) { i += 1; }
        let en = i - 1;
        if st == 0 && en == 255 { return None; }
        unsafe {
          let lo = Z3_mk_bvule(c, self.num(8, st as u128), x);
          let hi = Z3_mk_bvule(c, x, self.num(8, en as u128));
          let ab = [lo, hi];
          parts.push(Z3_mk_and(c, 2, ab.as_ptr()));
        }
      } else { i += 1; }
    }
    unsafe { Some(Z3_mk_or(c, parts.len() as u32, parts.as_ptr())) }
  }
  /// Some(assignments) if satisfiable; None if unsatisfiable. Panics on unknown.
  pub fn check(&mut self, cons: &[(E, bool)], doms: &[(u32, Dom)]) -> Option<Vec<(u32, u8)>> {
    let t0 = std::time::Instant::now();
    self.queries += 1;
    let r;
    unsafe {
      let (c, s) = (self.c, self.s);
      Z3_solver_push(c, s);
      for (v, d) in doms { if let Some(a) = self.dom_ast(*v, d) { Z3_solver_assert(c, s, a); } }
      for (e, pos) in cons {
        let x = self.tr(*e);
        let k = Z3_mk_eq(c, x, self.num(1, 1));
        Z3_solver_assert(c, s, if *pos { k } else { Z3_mk_not(c, k) });
      }
      let q = Z3_solver_check(c, s);
      if q == 1 {
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = vec![];
        for (v, _) in doms {
          let x = self.var(*v);
          let mut a: P = std::ptr::null_mut();
          let mut val = 0u64;
          if Z3_model_eval(c, m, x, true, &mut a) { Z3_get_numeral_uint64(c, a, &mut val); }
          out.push((*v, val as u8));
        }
        Z3_model_dec_ref(c, m);
        r = Some(out);
        self.sat += 1;
      } else if q == -1 {
        r = None;
        self.unsat += 1;
      } else { panic!("z3: unknown") }
      Z3_solver_pop(c, s, 1);
    }
    self.nanos += t0.elapsed().as_nanos() as u64;
    r
  }
}
