//! Parser for textual LLVM IR (LLVM 20+, opaque pointers) and lowering of function bodies
//! to a compact register form that the executor interprets.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
  Void,
  Int(u32),
  Ptr,
  F32,
  F64,
  Array(u64, Rc<Ty>),
  Struct(Rc<Vec<Ty>>, bool),
  Vector(u32, Rc<Ty>),
  Opaque,
}

pub fn align_to(x: u64, a: u64) -> u64 { if a <= 1 { x } else { (x + a - 1) / a * a } }

impl Ty {
  pub fn align(&self) -> u64 {
    match self {
      Ty::Void | Ty::Opaque => 1,
      Ty::Int(n) => {
        if *n <= 8 { 1 } else if *n <= 16 { 2 } else if *n <= 32 { 4 } else if *n <= 64 { 8 } else { 16 }
      },
      Ty::Ptr | Ty::F64 => 8,
      Ty::F32 => 4,
      Ty::Array(_, t) => t.align(),
      Ty::Struct(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
      Ty::Vector(..) => (self.store_size()).next_power_of_two(),
    }
  }
  pub fn store_size(&self) -> u64 {
    match self {
      Ty::Int(n) => ((*n as u64) + 7) / 8,
      Ty::Vector(n, t) => (*n as u64) * t.store_size(),
      _ => self.size(),
    }
  }
  pub fn size(&self) -> u64 {
    match self {
      Ty::Void | Ty::Opaque => 0,
      Ty::Int(n) => align_to((*n as u64 + 7) / 8, self.align()),
      Ty::Ptr | Ty::F64 => 8,
      Ty::F32 => 4,
      Ty::Array(n, t) => n * t.size(),
      Ty::Struct(ts, packed) => {
        let mut o = 0;
        for t in ts.iter() {
          if !*packed { o = align_to(o, t.align()); }
          o += t.size();
        }
        if !*packed { o = align_to(o, self.align()); }
        o
      },
      Ty::Vector(..) => align_to(self.store_size(), self.align()),
    }
  }
  pub fn field_offset(&self, i: usize) -> u64 {
    match self {
      Ty::Struct(ts, packed) => {
        let mut o = 0;
        for (k, t) in ts.iter().enumerate() {
          if !*packed { o = align_to(o, t.align()); }
          if k == i { return o; }
          o += t.size();
        }
        panic!("field index")
      },
      Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
      _ => panic!("field_offset of {:?}", self),
    }
  }
  pub fn field_ty(&self, i: usize) -> Ty {
    match self {
      Ty::Struct(ts, _) => ts[i].clone(),
      Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
      _ => panic!("field_ty of {:?}", self),
    }
  }
  pub fn bits(&self) -> u32 {
    match self {
      Ty::Int(n) => *n,
      Ty::Ptr | Ty::F64 => 64,
      Ty::F32 => 32,
      _ => 0,
    }
  }
  pub fn nfields(&self) -> usize {
    match self {
      Ty::Struct(ts, _) => ts.len(),
      Ty::Array(n, _) => *n as usize,
      Ty::Vector(n, _) => *n as usize,
      _ => 0,
    }
  }
}

/// A constant, before it is turned into an executor value.
#[derive(Clone, Debug)]
pub enum Const {
  Int(u128, u32),
  Agg(Vec<Const>),
  Zero(Ty),
  Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
  Reg(u32),
  Imm(u64),
  Big(Rc<Const>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FBin { FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opnd), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
  Bin(Bin, u32, u32, Opnd, Opnd),           // op width dst a b
  FBin(FBin, bool, u32, Opnd, Opnd),        // op is64 dst a b
  FNeg(bool, u32, Opnd),
  ICmp(Pred, u32, u32, Opnd, Opnd),         // pred width dst a b
  FCmp(Rc<str>, bool, u32, Opnd, Opnd),
  Cast(Cast, u32, u32, u32, Opnd),          // kind from to dst a
  Select(u32, u32, Opnd, Opnd, Opnd),             // dst width(0: aggregate) cond a b
  Load(u32, Rc<Ty>, u8, Opnd),                  // dst ty size(<=8 scalar, else 0) ptr
  Store(Rc<Ty>, u8, Opnd, Opnd),                // ty size val ptr
  Gep(u32, Opnd, u64, Rc<Vec<(Opnd, u32, u64)>>), // dst base const (idx width scale)
  Alloca(u32, u64, Opnd, u64),              // dst elem-size count align
  Call(Option<u32>, Callee, Rc<Vec<Opnd>>, Rc<Ty>),
  Br(u32),
  CondBr(Opnd, u32, u32),
  Switch(Opnd, u32, u32, Rc<Vec<(u64, u32)>>),
  Ret(Option<Opnd>),
  Unreachable,
  ExtractValue(u32, Opnd, Rc<Vec<u32>>),
  InsertValue(u32, Opnd, Opnd, Rc<Vec<u32>>, Rc<Ty>),
  Copy(u32, Opnd),
  CmpXchg(u32, Rc<Ty>, Opnd, Opnd, Opnd),
  AtomicRmw(u32, Rc<str>, Rc<Ty>, Opnd, Opnd),
  Nop,
  Unsupported(Rc<str>),
}

pub struct Block {
  pub start: u32,
  /// phi moves grouped by predecessor block: (pred, [(dst, src)])
  pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
}

pub struct Func {
  pub name: Rc<str>,
  pub nregs: u32,
  pub nparams: u32,
  pub code: Vec<Inst>,
  pub blocks: Vec<Block>,
}

pub enum FnBody { External, Lines(usize, usize) }
pub struct FnDecl { pub name: Rc<str>, pub body: FnBody, pub header: String }

pub struct Global { pub name: Rc<str>, pub ty: Ty, pub init: Option<String>, pub is_const: bool }

pub const FN_BASE: u64 = 0x7ff0_0000_0000_0000 >> 4; // function addresses live in their own region

pub struct Module {
  pub lines: Vec<String>,
  pub fns: Vec<FnDecl>,
  pub fn_ids: HashMap<Rc<str>, u32>,
  pub globals: Vec<Global>,
  pub global_ids: HashMap<Rc<str>, u32>,
  pub aliases: HashMap<String, String>,
  pub types: HashMap<String, Ty>,
}

pub fn fn_addr(id: u32) -> u64 { FN_BASE + ((id as u64) << 4) }
pub fn addr_fn(a: u64) -> Option<u32> {
  if a >= FN_BASE && (a & 15) == 0 { Some(((a - FN_BASE) >> 4) as u32) } else { None }
}
/// global i is memory object i+1
pub fn global_addr(i: u32) -> u64 { ((i as u64) + 1) << 32 }

pub struct P<'a> { pub s: &'a [u8], pub i: usize, m: &'a Module }

impl<'a> P<'a> {
  pub fn new(s: &'a str, m: &'a Module) -> Self { P { s: s.as_bytes(), i: 0, m } }
  fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
  fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
  fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
  fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected '{}'", c as char)) } }
  fn fail(&self, msg: &str) -> ! {
    panic!("IR parse: {} at {} in: {}", msg, self.i, String::from_utf8_lossy(&self.s[..self.s.len().min(600)]))
  }
  fn word_char(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' }
  pub fn peek_word(&mut self) -> &'a str {
    self.ws();
    let mut j = self.i;
    while j < self.s.len() && Self::word_char(self.s[j]) { j += 1; }
    std::str::from_utf8(&self.s[self.i..j]).unwrap()
  }
  pub fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
  fn try_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
  fn skip_parens(&mut self) {
    self.expect(b'(');
    let mut d = 1;
    let mut inq = false;
    while d > 0 {
      if self.i >= self.s.len() { self.fail("unbalanced"); }
      match self.s[self.i] {
        b'"' => inq = !inq,
        b'(' if !inq => d += 1,
        b')' if !inq => d -= 1,
        _ => {},
      }
      self.i += 1;
    }
  }
  /// name after a sigil: plain or quoted
  pub fn name(&mut self) -> String {
    if self.i < self.s.len() && self.s[self.i] == b'"' {
      self.i += 1;
      let st = self.i;
      while self.s[self.i] != b'"' { self.i += 1; }
      let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
      self.i += 1;
      r
    } else {
      let st = self.i;
      while self.i < self.s.len() && Self::word_char(self.s[self.i]) { self.i += 1; }
      String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
  }
  pub fn ty(&mut self) -> Ty {
    let t = self.ty0();
    // function type in calls: `void (ptr, ...)`
    t
  }
  fn ty0(&mut self) -> Ty {
    match self.peek() {
      b'[' => {
        self.i += 1;
        let n: u64 = self.word().parse().unwrap();
        if !self.try_word("x") { self.fail("array") }
        let t = self.ty();
        self.expect(b']');
        Ty::Array(n, Rc::new(t))
      },
      b'{' => {
        self.i += 1;
        let mut v = vec![];
        if !self.eat(b'}') {
          loop { v.push(self.ty()); if !self.eat(b',') { break; } }
          self.expect(b'}');
        }
        Ty::Struct(Rc::new(v), false)
      },
      b'<' => {
        self.i += 1;
        if self.peek() == b'{' {
          let t = self.ty();
          self.expect(b'>');
          if let Ty::Struct(v, _) = t { Ty::Struct(v, true) } else { unreachable!() }
        } else {
          let n: u32 = self.word().parse().unwrap();
          if !self.try_word("x") { self.fail("vector") }
          let t = self.ty();
          self.expect(b'>');
          Ty::Vector(n, Rc::new(t))
        }
      },
      b'%' => {
        self.i += 1;
        let n = self.name();
        self.m.types.get(&n).cloned().unwrap_or(Ty::Opaque)
      },
      _ => {
        let w = self.word();
        match w {
          "void" => Ty::Void,
          "ptr" => Ty::Ptr,
          "float" => Ty::F32,
          "double" => Ty::F64,
          "metadata" | "label" | "token" => Ty::Opaque,
          _ => {
            if let Some(n) = w.strip_prefix('i') {
              if let Ok(n) = n.parse::<u32>() { return Ty::Int(n); }
            }
            self.i -= w.len();
            self.fail("type")
          },
        }
      },
    }
  }
  fn is_ty_start(&mut self) -> bool {
    match self.peek() {
      b'[' | b'{' | b'<' | b'%' => true,
      _ => {
        let w = self.peek_word();
        matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token")
          || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
      },
    }
  }
  fn cstring(&mut self) -> Vec<u8> {
    self.expect(b'"');
    let mut v = vec![];
    while self.s[self.i] != b'"' {
      if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
        v.push(b'\\');
        self.i += 2;
      } else if self.s[self.i] == b'\\' {
        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
        v.push(u8::from_str_radix(h, 16).unwrap());
        self.i += 3;
      } else {
        v.push(self.s[self.i]);
        self.i += 1;
      }
    }
    self.i += 1;
    v
  }
  pub fn sym_addr(&self, n: &str) -> u64 {
    let mut n = n;
    while let Some(a) = self.m.aliases.get(n) { n = a; }
    if let Some(id) = self.m.fn_ids.get(n) { return fn_addr(*id); }
    if let Some(id) = self.m.global_ids.get(n) { return global_addr(*id); }
    panic!("unknown symbol @{}", n)
  }
  /// constant of the given type
  pub fn constant(&mut self, ty: &Ty) -> Const {
    let bits = ty.bits();
    match self.peek() {
      b'@' => { self.i += 1; let n = self.name(); Const::Int(self.sym_addr(&n) as u128, 64) },
      b'"' => Const::Bytes(self.cstring()),
      b'{' | b'[' => {
        let close = if self.s[self.i] == b'{' { b'}' } else { b']' };
        self.i += 1;
        let mut v = vec![];
        if !self.eat(close) {
          loop { let t = self.ty(); v.push(self.constant(&t)); if !self.eat(b',') { break; } }
          self.expect(close);
        }
        Const::Agg(v)
      },
      b'<' => {
        self.i += 1;
        if self.peek() == b'{' {
          let c = self.constant(ty);
          self.expect(b'>');
          c
        } else {
          let mut v = vec![];
          loop { let t = self.ty(); v.push(self.constant(&t)); if !self.eat(b',') { break; } }
          self.expect(b'>');
          Const::Agg(v)
        }
      },
      // floats in the newer notation: f0x and the bits, +inf, -inf, +qnan, -qnan
      b'f' if (*ty == Ty::F64 || *ty == Ty::F32) && self.s[self.i..].starts_with(b"f0x") => {
        self.i += 3;
        let w = self.word();
        Const::Int(u64::from_str_radix(w, 16).unwrap() as u128, if *ty == Ty::F64 { 64 } else { 32 })
      },
      c if (c == b'+' || c == b'-') && (self.s[self.i + 1..].starts_with(b"inf") || self.s[self.i + 1..].starts_with(b"qnan")) => {
        self.i += 1;
        let v = if self.word() == "inf" { f64::INFINITY } else { f64::NAN };
        let v = if c == b'-' { -v } else { v };
        if *ty == Ty::F64 { Const::Int(v.to_bits() as u128, 64) } else { Const::Int((v as f32).to_bits() as u128, 32) }
      },
      c if c == b'-' || c.is_ascii_digit() => {
        let w = self.word();
        if *ty == Ty::F64 || *ty == Ty::F32 {
          let v: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else {
            // the exponent sign '+' is not a word char
            let mut s = w.to_string();
            if s.ends_with('e') && self.i < self.s.len() && self.s[self.i] == b'+' { self.i += 1; s += self.word(); }
            s.parse().unwrap()
          };
          return if *ty == Ty::F64 { Const::Int(v.to_bits() as u128, 64) } else { Const::Int((v as f32).to_bits() as u128, 32) };
        }
        let v: u128 = if w.starts_with('-') { w.parse::<i128>().unwrap() as u128 } else { w.parse::<u128>().unwrap() };
        let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        Const::Int(v & m, bits)
      },
      _ => {
        let w = self.word();
        match w {
          "c" => Const::Bytes(self.cstring()),
          "true" => Const::Int(1, 1),
          "false" => Const::Int(0, 1),
          "null" => Const::Int(0, 64),
          "none" | "zeroinitializer" | "undef" | "poison" => if bits > 0 { Const::Int(0, bits) } else { Const::Zero(ty.clone()) },
          "getelementptr" => {
            loop {
              let w = self.peek_word();
              if w == "inbounds" || w == "nuw" || w == "nusw" { self.word(); }
              else if w == "inrange" { self.word(); self.skip_parens(); }
              else { break; }
            }
            self.expect(b'(');
            let t = self.ty();
            self.expect(b',');
            let pt = self.ty();
            let base = self.constant(&pt);
            let mut addr = match base { Const::Int(v, _) => v as u64, _ => 0 };
            let mut cur = t.clone();
            let mut first = true;
            while self.eat(b',') {
              let it = self.ty();
              let iv = match self.constant(&it) { Const::Int(v, b) => sext(v as u64, b.min(64)), _ => 0 };
              if first { addr = addr.wrapping_add(t.size().wrapping_mul(iv)); first = false; }
              else { addr = addr.wrapping_add(cur.field_offset_dyn(iv)); cur = cur.field_ty(if let Ty::Struct(..) = cur { iv as usize } else { 0 }); }
            }
            self.expect(b')');
            Const::Int(addr as u128, 64)
          },
          "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
            self.expect(b'(');
            let t = self.ty();
            let c = self.constant(&t);
            if !self.try_word("to") { self.fail("to") }
            let t2 = self.ty();
            self.expect(b')');
            match c { Const::Int(v, _) => { let b = t2.bits(); let m = if b >= 128 { u128::MAX } else { (1u128 << b) - 1 }; Const::Int(v & m, b) }, c => c }
          },
          "sub" | "add" | "xor" => {
            loop { let w = self.peek_word(); if w == "nuw" || w == "nsw" { self.word(); } else { break; } }
            self.expect(b'(');
            let t = self.ty();
            let a = self.constant(&t);
            self.expect(b',');
            let t2 = self.ty();
            let b = self.constant(&t2);
            self.expect(b')');
            match (a, b) {
              (Const::Int(x, bb), Const::Int(y, _)) => {
                let r = match w { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), _ => x ^ y };
                let m = if bb >= 128 { u128::MAX } else { (1u128 << bb) - 1 };
                Const::Int(r & m, bb)
              },
              _ => self.fail("const arith"),
            }
          },
          "splat" => {
            self.expect(b'(');
            let t = self.ty();
            let c = self.constant(&t);
            self.expect(b')');
            Const::Agg(vec![c; ty.nfields()])
          },
          _ => self.fail(&format!("constant '{}'", w)),
        }
      },
    }
  }
}
impl Ty {
  fn field_offset_dyn(&self, iv: u64) -> u64 {
    match self {
      Ty::Struct(..) => self.field_offset(iv as usize),
      Ty::Array(_, t) | Ty::Vector(_, t) => t.size().wrapping_mul(iv),
      _ => panic!("gep into scalar"),
    }
  }
}

pub fn sext(v: u64, bits: u32) -> u64 {
  if bits >= 64 || bits == 0 { v } else { let s = 64 - bits; (((v << s) as i64) >> s) as u64 }
}

pub fn write_const(c: &Const, ty: &Ty, out: &mut [u8]) {
  match c {
    Const::Int(v, _) => {
      let n = ty.store_size() as usize;
      let b = v.to_le_bytes();
      out[..n].copy_from_slice(&b[..n]);
    },
    Const::Bytes(v) => out[..v.len()].copy_from_slice(v),
    Const::Zero(_) => {},
    Const::Agg(v) => {
      for (i, c) in v.iter().enumerate() {
        let o = ty.field_offset(i) as usize;
        write_const(c, &ty.field_ty(i), &mut out[o..]);
      }
    },
  }
}

fn opnd_of(c: Const, _ty: &Ty) -> Opnd {
  match c {
    Const::Int(v, b) if b <= 64 => Opnd::Imm(v as u64),
    c => Opnd::Big(Rc::new(c)),
  }
}

impl Module {
  pub fn parse(text: &str) -> Module {
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let mut m = Module { lines, fns: vec![], fn_ids: HashMap::new(), globals: vec![], global_ids: HashMap::new(), aliases: HashMap::new(), types: HashMap::new() };
    let lines = std::mem::take(&mut m.lines);
    // named types first
    for l in &lines {
      if l.starts_with('%') {
        if let Some(p) = l.find(" = type ") {
          let name = l[1..p].trim_matches('"').to_string();
          let t = if l[p + 8..].starts_with("opaque") { Ty::Opaque } else { P::new(&l[p + 8..], &m).ty() };
          m.types.insert(name, t);
        }
      }
    }
    let mut i = 0;
    let mut alias_lines = vec![];
    while i < lines.len() {
      let l = &lines[i];
      if l.starts_with('@') {
        let (name, rest) = {
          let mut p = P::new(l, &m);
          p.i = 1;
          let n = p.name();
          p.expect(b'=');
          (n, l[p.i..].to_string())
        };
        let mut p = P::new(&rest, &m);
        let mut is_const = false;
        let mut external = false;
        let mut alias = false;
        loop {
          let w = p.word();
          match w {
            "constant" => { is_const = true; break; },
            "global" => break,
            "alias" => { alias = true; break; },
            "external" | "extern_weak" => external = true,
            "thread_local" | "addrspace" => { if p.peek() == b'(' { p.skip_parens(); } },
            "" => panic!("global? {}", l),
            _ => {},
          }
        }
        if alias {
          alias_lines.push((name, rest[p.i..].to_string()));
        } else {
          let ty = p.ty();
          let init = if external { None } else { Some(rest[p.i..].to_string()) };
          let name: Rc<str> = name.into();
          m.global_ids.insert(name.clone(), m.globals.len() as u32);
          m.globals.push(Global { name, ty, init, is_const });
        }
      } else if l.starts_with("define ") || l.starts_with("declare ") {
        let at = find_fn_name(l);
        let mut p = P::new(l, &m);
        p.i = at + 1;
        let name: Rc<str> = p.name().into();
        let header = l[p.i..].to_string();
        let id = m.fns.len() as u32;
        m.fn_ids.insert(name.clone(), id);
        if l.starts_with("define ") {
          let st = i + 1;
          while lines[i] != "}" { i += 1; }
          m.fns.push(FnDecl { name, body: FnBody::Lines(st, i), header });
        } else {
          m.fns.push(FnDecl { name, body: FnBody::External, header });
        }
      }
      i += 1;
    }
    for (name, rest) in alias_lines {
      let a = rest.rfind('@').unwrap();
      let mut p = P::new(&rest, &m);
      p.i = a + 1;
      let t = p.name();
      m.aliases.insert(name, t);
    }
    m.lines = lines;
    m
  }

  pub fn global_init(&self, gi: u32) -> Vec<u8> {
    let g = &self.globals[gi as usize];
    let mut out = vec![0u8; g.ty.size() as usize];
    if let Some(init) = &g.init {
      let mut p = P::new(init, self);
      let c = p.constant(&g.ty);
      write_const(&c, &g.ty, &mut out);
    }
    out
  }

  pub fn compile(&self, id: u32) -> Func {
    let d = &self.fns[id as usize];
    let (st, en) = match d.body { FnBody::Lines(a, b) => (a, b), _ => panic!("external") };
    let mut c = FnCompiler { m: self, regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
    // parameters
    let hdr = d.header.clone();
    let mut p = P::new(&hdr, self);
    p.expect(b'(');
    let mut nparams = 0;
    if !p.eat(b')') {
      loop {
        if p.peek() == b'.' { p.i += 3; } else {
          let _t = p.ty();
          c.skip_attrs(&mut p);
          if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            let r = c.reg(&n);
            assert_eq!(r, nparams);
          } else { c.nregs += 1; }
          nparams += 1;
        }
        if !p.eat(b',') { break; }
      }
      p.expect(b')');
    }
    // blocks: collect labels in order
    let mut nb = 0u32;
    let body = &self.lines[st..en];
    let mut first_label_seen = false;
    for l in body.iter() {
      if l.is_empty() || l.starts_with(';') { continue; }
      if !l.starts_with(' ') && !l.starts_with('\t') {
        let name = label_name(l);
        c.labels.insert(name, nb);
        nb += 1;
        first_label_seen = true;
      } else if !first_label_seen {
        // implicit entry label
        c.labels.insert(format!("{}", nparams), nb);
        nb += 1;
        first_label_seen = true;
      }
    }
    let mut blocks: Vec<Block> = (0..nb).map(|_| Block { start: 0, phis: vec![] }).collect();
    let mut code = vec![];
    let mut cur: i64 = -1;
    let mut k = 0;
    while k < body.len() {
      let l = &body[k];
      if l.is_empty() || l.starts_with(';') { k += 1; continue; }
      if !l.starts_with(' ') && !l.starts_with('\t') {
        cur = c.labels[&label_name(l)] as i64;
        blocks[cur as usize].start = code.len() as u32;
        k += 1;
        continue;
      }
      if cur < 0 { cur = 0; }
      let mut text = l.clone();
      // multi-line switch
      if text.trim_start().starts_with("switch ") && !text.trim_end().ends_with(']') && !text.contains("] ,") && !text.contains(']') {
        while !body[k].trim_start().starts_with(']') { k += 1; text.push(' '); text.push_str(&body[k]); }
      } else if text.trim_start().starts_with("switch ") && text.trim_end().ends_with('[') {
        while !body[k].trim_start().starts_with(']') { k += 1; text.push(' '); text.push_str(&body[k]); }
      }
      let t = text.trim_start();
      if let Some(ph) = phi_parts(t) {
        let mut p = P::new(t, self);
        p.i = 1;
        let n = p.name();
        let dst = c.reg(&n);
        p.i = ph;
        // flags? then type
        c.skip_flags(&mut p);
        let ty = p.ty();
        loop {
          p.expect(b'[');
          let v = c.value(&mut p, &ty);
          p.expect(b',');
          p.expect(b'%');
          let lab = p.name();
          p.expect(b']');
          let pred = c.labels[&lab];
          let ph = &mut blocks[cur as usize].phis;
          match ph.iter_mut().find(|x| x.0 == pred) {
            Some(x) => { if !x.1.iter().any(|y| y.0 == dst) { x.1.push((dst, v)) } },
            None => ph.push((pred, vec![(dst, v)])),
          }
          if !p.eat(b',') { break; }
          if p.peek() != b'[' { break; }
        }
      } else {
        let inst = c.inst(t);
        match inst { Inst::Nop => {}, i => code.push(i) }
      }
      k += 1;
    }
    Func { name: d.name.clone(), nregs: c.nregs, nparams, code, blocks }
  }
}

fn phi_parts(t: &str) -> Option<usize> {
  if !t.starts_with('%') { return None; }
  let e = if t.as_bytes()[1] == b'"' { t[2..].find('"')? + 3 } else { t.find(' ')? };
  if t[e..].starts_with(" = phi ") { Some(e + 7) } else { None }
}

fn label_name(l: &str) -> String {
  if let Some(r) = l.strip_prefix('"') { let e = r.find('"').unwrap(); r[..e].to_string() } else { l[..l.find(':').unwrap()].to_string() }
}

fn find_fn_name(l: &str) -> usize {
  // the function name is the first '@' that is followed (after the name) by '('
  l.find('@').unwrap()
}

struct FnCompiler<'a> { m: &'a Module, regs: HashMap<String, u32>, nregs: u32, labels: HashMap<String, u32> }

impl<'a> FnCompiler<'a> {
  fn reg(&mut self, n: &str) -> u32 {
    if let Some(r) = self.regs.get(n) { return *r; }
    let r = self.nregs;
    self.nregs += 1;
    self.regs.insert(n.to_string(), r);
    r
  }
  fn value(&mut self, p: &mut P, ty: &Ty) -> Opnd {
    if p.peek() == b'%' {
      p.i += 1;
      let n = p.name();
      Opnd::Reg(self.reg(&n))
    } else {
      let c = p.constant(ty);
      opnd_of(c, ty)
    }
  }
  fn tv(&mut self, p: &mut P) -> (Ty, Opnd) { let t = p.ty(); let v = self.value(p, &t); (t, v) }
  fn skip_flags(&mut self, p: &mut P) {
    loop {
      let w = p.peek_word();
      match w {
        "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "samesign" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => { p.word(); },
        "inrange" => { p.word(); p.skip_parens(); },
        _ => break,
      }
    }
  }
  /// parameter / return attributes
  fn skip_attrs(&mut self, p: &mut P) {
    loop {
      let c = p.peek();
      if !(c.is_ascii_alphabetic() || c == b'"') { break; }
      if c == b'"' { p.cstring(); if p.peek() == b'=' { p.i += 1; p.cstring(); } continue; }
      let w = p.peek_word();
      match w {
        "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "returned" | "immarg" | "nofree" | "inreg" | "swiftself" | "nest" | "writable" | "dead_on_unwind" | "dead_on_return" | "allocptr" | "allocalign" | "noext" => { p.word(); if p.s.get(p.i) == Some(&b'(') { p.skip_parens(); } },
        "align" => { p.word(); if p.peek() == b'(' { p.skip_parens(); } else { p.word(); } },
        "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "initializes" | "nofpclass" | "elementtype" => { p.word(); p.skip_parens(); },
        "byval" => panic!("byval argument"),
        _ => break,
      }
    }
  }
  fn inst(&mut self, t: &str) -> Inst {
    let mut p = P::new(t, self.m);
    let mut dst = None;
    if t.starts_with('%') {
      p.i = 1;
      let n = p.name();
      p.expect(b'=');
      dst = Some(self.reg(&n));
    }
    let op = p.word();
    let d = dst.unwrap_or(0);
    let bin = |o: &str| -> Option<Bin> {
      Some(match o { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem,
        "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, _ => return None })
    };
    if let Some(b) = bin(op) {
      self.skip_flags(&mut p);
      let ty = p.ty();
      if let Ty::Vector(..) = ty { return Inst::Unsupported(t.into()); }
      let a = self.value(&mut p, &ty);
      p.expect(b',');
      let c = self.value(&mut p, &ty);
      return Inst::Bin(b, ty.bits(), d, a, c);
    }
    match op {
      "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
        self.skip_flags(&mut p);
        let ty = p.ty();
        if let Ty::Vector(..) = ty { return Inst::Unsupported(t.into()); }
        let a = self.value(&mut p, &ty);
        p.expect(b',');
        let c = self.value(&mut p, &ty);
        let o = match op { "fadd" => FBin::FAdd, "fsub" => FBin::FSub, "fmul" => FBin::FMul, "fdiv" => FBin::FDiv, _ => FBin::FRem };
        Inst::FBin(o, ty == Ty::F64, d, a, c)
      },
      "fneg" => { self.skip_flags(&mut p); let (ty, a) = self.tv(&mut p); Inst::FNeg(ty == Ty::F64, d, a) },
      "icmp" => {
        self.skip_flags(&mut p);
        let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, w => panic!("icmp {}", w) };
        let ty = p.ty();
        if let Ty::Vector(..) = ty { return Inst::Unsupported(t.into()); }
        let a = self.value(&mut p, &ty);
        p.expect(b',');
        let c = self.value(&mut p, &ty);
        Inst::ICmp(pr, ty.bits(), d, a, c)
      },
      "fcmp" => {
        self.skip_flags(&mut p);
        let pr: Rc<str> = p.word().into();
        let ty = p.ty();
        let a = self.value(&mut p, &ty);
        p.expect(b',');
        let c = self.value(&mut p, &ty);
        Inst::FCmp(pr, ty == Ty::F64, d, a, c)
      },
      "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
        self.skip_flags(&mut p);
        let (ty, a) = self.tv(&mut p);
        if !p.try_word("to") { p.fail("to") }
        let t2 = p.ty();
        if let Ty::Vector(..) = ty { return Inst::Unsupported(t.into()); }
        if let Ty::Vector(..) = t2 { return Inst::Unsupported(t.into()); }
        let (f, w) = (ty.bits(), t2.bits());
        let k = match op {
          "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt,
          "ptrtoint" | "inttoptr" | "ptrtoaddr" => if f > w { Cast::Trunc } else if f < w { Cast::ZExt } else { Cast::Bit },
          "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
          _ => Cast::Bit,
        };
        Inst::Cast(k, f, w, d, a)
      },
      "select" => {
        self.skip_flags(&mut p);
        let (ct, c) = self.tv(&mut p);
        if let Ty::Vector(..) = ct { return Inst::Unsupported(t.into()); }
        p.expect(b',');
        let (vt, a) = self.tv(&mut p);
        p.expect(b',');
        let (_, b) = self.tv(&mut p);
        Inst::Select(d, vt.bits(), c, a, b)
      },
      "freeze" => { let (_, a) = self.tv(&mut p); Inst::Copy(d, a) },
      "load" => {
        self.skip_flags(&mut p);
        let ty = p.ty();
        p.expect(b',');
        let (_, a) = self.tv(&mut p);
        let sz = scalar_size(&ty);
        Inst::Load(d, Rc::new(ty), sz, a)
      },
      "store" => {
        self.skip_flags(&mut p);
        let (ty, v) = self.tv(&mut p);
        p.expect(b',');
        let (_, a) = self.tv(&mut p);
        let sz = scalar_size(&ty);
        Inst::Store(Rc::new(ty), sz, v, a)
      },
      "getelementptr" => {
        self.skip_flags(&mut p);
        let ty = p.ty();
        p.expect(b',');
        let (_, base) = self.tv(&mut p);
        let mut cst = 0u64;
        let mut dyns = vec![];
        let mut cur = ty.clone();
        let mut first = true;
        while p.eat(b',') {
          if !p.is_ty_start() { break; }
          let (it, iv) = self.tv(&mut p);
          let scale;
          let mut next = cur.clone();
          if first { scale = ty.size(); first = false; }
          else {
            match &cur {
              Ty::Struct(..) => {
                let k = match iv { Opnd::Imm(k) => k as usize, _ => panic!("dyn struct gep") };
                cst = cst.wrapping_add(cur.field_offset(k));
                cur = cur.field_ty(k);
                continue;
              },
              Ty::Array(_, t) | Ty::Vector(_, t) => { scale = t.size(); next = (**t).clone(); },
              _ => panic!("gep scalar"),
            }
          }
          match iv {
            Opnd::Imm(k) => cst = cst.wrapping_add(sext(k, it.bits()).wrapping_mul(scale)),
            o => dyns.push((o, it.bits(), scale)),
          }
          cur = next;
        }
        Inst::Gep(d, base, cst, Rc::new(dyns))
      },
      "alloca" => {
        let ty = p.ty();
        let mut cnt = Opnd::Imm(1);
        let mut al = ty.align();
        while p.eat(b',') {
          if p.try_word("align") { al = p.word().parse().unwrap(); }
          else if p.is_ty_start() { cnt = self.tv(&mut p).1; }
          else { break; }
        }
        Inst::Alloca(d, ty.size(), cnt, al)
      },
      "call" | "tail" | "musttail" | "notail" | "invoke" => {
        if op != "call" && op != "invoke" { p.word(); }
        self.skip_flags(&mut p);
        loop {
          let w = p.peek_word();
          match w { "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" => { p.word(); }, _ => break }
        }
        self.skip_attrs(&mut p);
        let ty = p.ty();
        if p.peek() == b'(' { p.skip_parens(); }
        let callee;
        if p.peek() == b'@' {
          p.i += 1;
          let n = p.name();
          let mut nn: &str = &n;
          while let Some(a) = self.m.aliases.get(nn) { nn = a; }
          match self.m.fn_ids.get(nn) { Some(id) => callee = Callee::Direct(*id), None => panic!("unknown callee {}", n) }
        } else if p.peek() == b'%' {
          p.i += 1;
          let n = p.name();
          callee = Callee::Indirect(Opnd::Reg(self.reg(&n)));
        } else if p.try_word("asm") {
          callee = Callee::Asm;
          loop { let w = p.peek_word(); if w == "" { break; } p.word(); }
          p.cstring();
          p.expect(b',');
          p.cstring();
        } else {
          let c = p.constant(&Ty::Ptr);
          match c { Const::Int(v, _) => callee = Callee::Indirect(Opnd::Imm(v as u64)), _ => panic!("callee") }
        }
        p.expect(b'(');
        let mut args = vec![];
        if !p.eat(b')') {
          loop {
            let t0 = p.ty();
            if t0 == Ty::Opaque { // metadata argument
              return Inst::Nop;
            }
            self.skip_attrs(&mut p);
            args.push(self.value(&mut p, &t0));
            if !p.eat(b',') { break; }
          }
          p.expect(b')');
        }
        if let Callee::Direct(id) = callee {
          let n = &self.m.fns[id as usize].name;
          if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") { return Inst::Nop; }
        }
        Inst::Call(dst, callee, Rc::new(args), Rc::new(ty))
      },
      "br" => {
        let w = p.peek_word();
        if w == "label" {
          p.word();
          p.expect(b'%');
          let l = p.name();
          Inst::Br(self.labels[&l])
        } else {
          let (_, c) = self.tv(&mut p);
          p.expect(b',');
          p.word();
          p.expect(b'%');
          let a = p.name();
          p.expect(b',');
          p.word();
          p.expect(b'%');
          let b = p.name();
          Inst::CondBr(c, self.labels[&a], self.labels[&b])
        }
      },
      "switch" => {
        let (ty, c) = self.tv(&mut p);
        p.expect(b',');
        p.word();
        p.expect(b'%');
        let def = p.name();
        p.expect(b'[');
        let mut v = vec![];
        while !p.eat(b']') {
          let t2 = p.ty();
          let k = match p.constant(&t2) { Const::Int(k, b) if b <= 64 => k as u64, _ => panic!("switch128") };
          p.expect(b',');
          p.word();
          p.expect(b'%');
          let l = p.name();
          v.push((k, self.labels[&l]));
        }
        Inst::Switch(c, ty.bits(), self.labels[&def], Rc::new(v))
      },
      "ret" => {
        let ty = p.ty();
        if ty == Ty::Void { Inst::Ret(None) } else { let v = self.value(&mut p, &ty); Inst::Ret(Some(v)) }
      },
      "unreachable" => Inst::Unreachable,
      "extractvalue" => {
        let (_, a) = self.tv(&mut p);
        let mut v = vec![];
        while p.eat(b',') { if p.peek() == b'!' { break; } v.push(p.word().parse().unwrap()); }
        Inst::ExtractValue(d, a, Rc::new(v))
      },
      "insertvalue" => {
        let (t0, a) = self.tv(&mut p);
        p.expect(b',');
        let (_, b) = self.tv(&mut p);
        let mut v = vec![];
        while p.eat(b',') { if p.peek() == b'!' { break; } v.push(p.word().parse().unwrap()); }
        Inst::InsertValue(d, a, b, Rc::new(v), Rc::new(t0))
      },
      "cmpxchg" => {
        self.skip_flags(&mut p);
        let (_, a) = self.tv(&mut p);
        p.expect(b',');
        let (ty, b) = self.tv(&mut p);
        p.expect(b',');
        let (_, c) = self.tv(&mut p);
        Inst::CmpXchg(d, Rc::new(ty), a, b, c)
      },
      "atomicrmw" => {
        self.skip_flags(&mut p);
        let o: Rc<str> = p.word().into();
        let (_, a) = self.tv(&mut p);
        p.expect(b',');
        let (ty, b) = self.tv(&mut p);
        Inst::AtomicRmw(d, o, Rc::new(ty), a, b)
      },
      "fence" => Inst::Nop,
      _ => Inst::Unsupported(t.into()),
    }
  }
}

fn scalar_size(t: &Ty) -> u8 {
  match t {
    Ty::Int(n) if *n <= 64 => ((*n + 7) / 8) as u8,
    Ty::Ptr | Ty::F64 => 8,
    Ty::F32 => 4,
    _ => 0,
  }
}
