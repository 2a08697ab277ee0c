//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(E), W(Rc<u128>), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Frame {
  pub func: Rc<Func>,
  pub pc: u32,
  pub cur: u32,
  pub regs: Vec<Val>,
  pub allocas: Vec<u32>,
  pub ret: Option<u32>,
}

#[derive(Clone)]
pub enum Emit { V(u32, u128), E(u32, E) }

#[derive(Clone)]
pub struct State {
  pub frames: Vec<Rc<Frame>>,
  pub mem: Mem,
  pub dom: Vec<Dom>,
  pub single: u128,   // variables with a one-element domain
  pub multi: Vec<E>,
  pub multi_mask: u128,
  pub model: Vec<u8>,
  pub eqs: Vec<(E, u128)>,
  pub emits: Vec<Emit>,
  pub labels: Vec<Rc<str>>,
  pub panic_ok: bool,
  pub steps: u64,
  pub forks: u32,
  pub hash_seed: u64,
  /// files: path, contents, and whether they exist; open descriptors: file, position, append
  pub files: Rc<Vec<(Vec<u8>, Rc<Vec<Val>>)>>,
  pub fds: Rc<Vec<Option<(usize, usize, bool)>>>,
  pub errno: Option<u64>,
  pub errval: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum X {
  Malloc, Calloc, Realloc, PosixMemalign, Free, Bcmp, Strlen, Memchr,
  Memcpy, Memmove, Memset,
  UMax, UMin, SMax, SMin, Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr,
  UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, UaddS, UsubS, SaddS, SsubS,
  Abs, Ucmp, Scmp, Ident, Trap, Nop0, PtrMask,
  SymU8, SymChoice, SymConc, SymAssume, SymCheck, SymReach, SymEmit, SymEmitBytes, SymPanicOk, SymEnd, SymParam, SymHashSeed, SymSetHashSeed,
  PanicFmt, Abort, Unsupported, Getenv, Write, Open, Close, Read, Gettid, ClockGettime, Lseek, Statx, Errno, SymFile, FloatFn, Hint,
}
pub enum FnKind { Todo, Code(Rc<Func>), Ext(X) }

pub enum Stop { End, Yield }
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
  pub paths: u64,
  pub assumed_out: u64,
  pub forks: u64,
  pub steps: u64,
  pub checks_concrete: u64,
  pub checks_symbolic: u64,
  pub unary_decisions: u64,
  pub audits: u64,
  pub multi_decisions: u64,
  pub cache_hits: u64,
  pub valuations: f64,
  pub multi_paths: u64,
  pub labels: BTreeMap<String, u64>,
  pub errors: BTreeMap<String, u64>,
}
pub struct Violation { pub kind: String, pub msg: String, pub model: Vec<u8>, pub count: u64 }

pub struct Exec {
  pub m: Module,
  pub fns: Vec<FnKind>,
  gcache: Vec<Option<Rc<Obj>>>,
  nglob: u32,
  pub pending: Vec<State>,
  pub z3: Z3,
  pub st: Stats,
  pub viol: Vec<Violation>,
  pub samples: Vec<(Vec<u8>, Vec<String>)>,
  pub nsamples: u64,
  pub sample_cap: u64,
  pub yield_mode: bool,
  pub max_steps: u64,
  pub audit_every: u64,
  pub rng: u64,
  qcache: HashMap<Vec<u32>, Option<Vec<(u32, u8)>>>,
  pub used: BTreeSet<u32>,
  pub trace_fn: bool,
  pub params: Vec<u64>,
  pub prof: Option<Box<HashMap<u32, u64>>>,
}

fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

fn mkval(e: E) -> Val {
  match ctx().is_const(e) {
    Some(v) => if ctx().w(e) <= 64 { Val::C(v as u64) } else { Val::W(Rc::new(v)) },
    None => Val::S(e),
  }
}
fn to_e(v: &Val, w: u32) -> E {
  match v {
    Val::C(x) => ctx().konst(w, *x as u128),
    Val::W(x) => ctx().konst(w, **x),
    Val::S(e) => *e,
    Val::A(_) => panic!("aggregate as scalar"),
  }
}
fn const_val(c: &Const) -> Val {
  match c {
    Const::Int(v, b) => if *b <= 64 { Val::C(*v as u64) } else { Val::W(Rc::new(*v)) },
    Const::Agg(v) => Val::A(Rc::new(v.iter().map(const_val).collect())),
    Const::Zero(t) => zero_val(t),
    Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
  }
}
fn zero_val(t: &Ty) -> Val {
  match t {
    Ty::Struct(ts, _) => Val::A(Rc::new(ts.iter().map(zero_val).collect())),
    Ty::Array(n, t) => Val::A(Rc::new((0..*n).map(|_| zero_val(t)).collect())),
    Ty::Vector(n, t) => Val::A(Rc::new((0..*n).map(|_| zero_val(t)).collect())),
    _ => if t.bits() > 64 { Val::W(Rc::new(0)) } else { Val::C(0) },
  }
}

impl Exec {
  pub fn new(m: Module) -> Exec {
    let nf = m.fns.len();
    let ng = m.globals.len();
    Exec {
      m, fns: (0..nf).map(|_| FnKind::Todo).collect(), gcache: vec![None; ng], nglob: ng as u32,
      pending: vec![], z3: Z3::new(), st: Stats::default(), viol: vec![], samples: vec![], nsamples: 0, sample_cap: 48,
      yield_mode: false, max_steps: 400_000_000, audit_every: 512, rng: 1, qcache: HashMap::new(), used: BTreeSet::new(), trace_fn: false, params: vec![], prof: None,
    }
  }
  fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

  pub fn initial(&mut self, entry: &str) -> Option<State> {
    let id = *self.m.fn_ids.get(entry)?;
    let mut st = State {
      frames: vec![], mem: Mem::new(self.nglob + 16), dom: vec![], single: 0, multi: vec![], multi_mask: 0, model: vec![], eqs: vec![],
      emits: vec![], labels: vec![], panic_ok: false, steps: 0, forks: 0, hash_seed: 0, files: Rc::new(vec![]), fds: Rc::new(vec![]), errno: None, errval: 2,
    };
    let f = self.func(id).unwrap();
    st.frames.push(Rc::new(Frame { pc: f.blocks[0].start, cur: 0, regs: vec![Val::C(0); f.nregs as usize], func: f, allocas: vec![], ret: None }));
    Some(st)
  }
  fn func(&mut self, id: u32) -> Result<Rc<Func>, X> {
    match &self.fns[id as usize] {
      FnKind::Code(f) => return Ok(f.clone()),
      FnKind::Ext(x) => return Err(*x),
      FnKind::Todo => {},
    }
    let d = &self.m.fns[id as usize];
    let k = match intercept(&d.name) {
      Some(x) => FnKind::Ext(x),
      None => match d.body {
        FnBody::External => FnKind::Ext(external(&d.name)),
        _ => FnKind::Code(Rc::new(self.m.compile(id))),
      },
    };
    self.used.insert(id);
    self.fns[id as usize] = k;
    self.func(id)
  }

  // ---------- path conditions ----------
  fn set_dom(&mut self, st: &mut State, v: u32, d: Dom) {
    st.dom[v as usize] = d;
    if dom_count(&d) == 1 { st.single |= 1u128 << v; }
  }
  /// constraints and domains connected to the given support
  fn slice(&self, st: &State, mut sup: u128) -> (Vec<E>, u128) {
    let mut out = vec![];
    let mut used = vec![false; st.multi.len()];
    loop {
      let mut ch = false;
      for (i, e) in st.multi.iter().enumerate() {
        if !used[i] {
          let s = ctx().sup(*e);
          if s & sup != 0 { used[i] = true; out.push(*e); if s & !sup != 0 { sup |= s; ch = true; } }
        }
      }
      if !ch { break; }
    }
    (out, sup)
  }
  /// is (path condition and cond) satisfiable?  Returns the new values of the variables involved.
  fn solve(&mut self, st: &State, cond: E, pos: bool) -> Option<Vec<(u32, u8)>> {
    let (cs, sup) = self.slice(st, ctx().sup(cond));
    self.st.multi_decisions += 1;
    // cheap attempt: patch one variable of the condition in the current model
    {
      let csup = ctx().sup(cond);
      let mut mdl = st.model.clone();
      let mut tries = 0;
      for v in 0..st.dom.len() as u32 {
        if csup >> v & 1 == 0 { continue; }
        let old = mdl[v as usize];
        let d = st.dom[v as usize];
        let vals: Vec<u8> = dom_iter(&d).collect();
        let stepn = (vals.len() / 24).max(1);
        for x in vals.iter().step_by(stepn) {
          if *x == old { continue; }
          mdl[v as usize] = *x;
          tries += 1;
          if (ctx().eval(cond, &mdl) == 1) == pos && cs.iter().all(|c| ctx().eval(*c, &mdl) == 1) { return Some(vec![(v, *x)]); }
        }
        mdl[v as usize] = old;
        if tries > 96 { break; }
      }
    }
    let mut key: Vec<u32> = cs.clone();
    key.sort();
    key.push(cond * 2 + pos as u32);
    let doms: Vec<(u32, Dom)> = (0..st.dom.len() as u32).filter(|v| sup >> v & 1 == 1).map(|v| (v, st.dom[v as usize])).collect();
    for (v, d) in &doms { key.push(*v); for x in d { key.push(*x as u32); key.push((*x >> 32) as u32); } }
    if let Some(r) = self.qcache.get(&key) { self.st.cache_hits += 1; return r.clone(); }
    let mut q: Vec<(E, bool)> = cs.iter().map(|e| (*e, true)).collect();
    q.push((cond, pos));
    let r = self.z3.check(&q, &doms);
    self.qcache.insert(key, r.clone());
    r
  }
  fn audit(&mut self, st: &State, cond: E, pos: bool, expect_sat: bool) {
    self.st.audits += 1;
    let (cs, sup) = self.slice(st, ctx().sup(cond));
    let doms: Vec<(u32, Dom)> = (0..st.dom.len() as u32).filter(|v| sup >> v & 1 == 1).map(|v| (v, st.dom[v as usize])).collect();
    let mut q: Vec<(E, bool)> = cs.iter().map(|e| (*e, true)).collect();
    q.push((cond, pos));
    let r = self.z3.check(&q, &doms);
    if r.is_some() != expect_sat { panic!("AUDIT: domain decision disagrees with z3"); }
  }
  /// can cond be true / false here?
  fn feasible(&mut self, st: &State, cond: E) -> (Option<Vec<(u32, u8)>>, Option<Vec<(u32, u8)>>) {
    let sup = ctx().sup(cond);
    if sup.count_ones() == 1 {
      let v = sup.trailing_zeros();
      let n = &ctx().nodes[cond as usize];
      let d = st.dom[v as usize];
      let dt = dom_and(&d, &n.bits);
      let df = dom_andn(&d, &n.bits);
      self.st.unary_decisions += 1;
      if self.audit_every > 0 && self.st.unary_decisions % self.audit_every == 0 {
        if st.multi_mask >> v & 1 == 0 {
          self.audit(st, cond, true, !dom_empty(&dt));
          self.audit(st, cond, false, !dom_empty(&df));
        }
      }
      let cur = st.model[v as usize];
      if dom_empty(&dt) { return (None, Some(vec![])); }
      if dom_empty(&df) { return (Some(vec![]), None); }
      let curv = dom_has(&n.bits, cur);
      if st.multi_mask >> v & 1 == 0 {
        return if curv { (Some(vec![]), Some(vec![(v, dom_first(&df))])) } else { (Some(vec![(v, dom_first(&dt))]), Some(vec![])) };
      }
      let o = self.solve(st, cond, !curv);
      return if curv { (Some(vec![]), o) } else { (o, Some(vec![])) };
    }
    let cur = ctx().eval(cond, &st.model) == 1;
    let o = self.solve(st, cond, !cur);
    if cur { (Some(vec![]), o) } else { (o, Some(vec![])) }
  }
  fn add(&mut self, st: &mut State, cond: E, pos: bool, patch: &[(u32, u8)]) {
    for (v, x) in patch { st.model[*v as usize] = *x; }
    let c = if pos { cond } else { ctx().not1(cond) };
    let mut cj = vec![];
    ctx().conjuncts(c, &mut cj);
    for c in cj {
      let sup = ctx().sup(c);
      if sup == 0 { continue; }
      if sup.count_ones() == 1 {
        let v = sup.trailing_zeros();
        let d = dom_and(&st.dom[v as usize], &ctx().nodes[c as usize].bits);
        self.set_dom(st, v, d);
      } else {
        st.multi.push(c);
        st.multi_mask |= sup;
      }
    }
    // drop constraints whose variables are all fixed; propagate constraints with one free variable
    if st.multi_mask & st.single != 0 {
      let mut i = 0;
      while i < st.multi.len() {
        let s = ctx().sup(st.multi[i]) & !st.single;
        if s == 0 { st.multi.swap_remove(i); continue; }
        if s.count_ones() == 1 {
          let v = s.trailing_zeros();
          let e = st.multi[i];
          let mut mdl = st.model.clone();
          let mut nd: Dom = [0; 4];
          let d = st.dom[v as usize];
          for x in dom_iter(&d) { mdl[v as usize] = x; if ctx().eval(e, &mdl) == 1 { nd[(x >> 6) as usize] |= 1 << (x & 63); } }
          self.set_dom(st, v, nd);
          st.multi.swap_remove(i);
          i = 0;
          continue;
        }
        i += 1;
      }
      st.multi_mask = st.multi.iter().fold(0, |a, e| a | ctx().sup(*e));
    }
    debug_assert!(st.model.iter().enumerate().all(|(v, x)| dom_has(&st.dom[v], *x)));
  }
  /// Simplify a symbolic value under the current domains.
  fn norm(&self, st: &State, e: E) -> Option<u128> {
    let sup = ctx().sup(e);
    if sup & !st.single == 0 { return Some(ctx().eval(e, &st.model)); }
    if !st.eqs.is_empty() { for (x, v) in &st.eqs { if *x == e { return Some(*v); } } }
    None
  }
  /// make a value concrete, forking over its feasible values
  fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
    match v {
      Val::C(x) => Ok(*x),
      Val::W(x) => Ok(**x as u64),
      Val::S(e) => self.conc_e(st, *e).map(|x| x as u64),
      Val::A(_) => panic!("conc aggregate"),
    }
  }
  fn conc_e(&mut self, st: &mut State, e: E) -> R<u128> {
    if let Some(v) = self.norm(st, e) { return Ok(v); }
    let sup = ctx().sup(e);
    let w = ctx().w(e);
    if sup.count_ones() == 1 && ctx().nodes[e as usize].tab.is_some() {
      let v = sup.trailing_zeros();
      let t = ctx().nodes[e as usize].tab.clone().unwrap();
      let mut groups: BTreeMap<u64, Dom> = BTreeMap::new();
      let d = st.dom[v as usize];
      for x in dom_iter(&d) { groups.entry(t[x as usize]).or_insert([0; 4])[(x >> 6) as usize] |= 1 << (x & 63); }
      if groups.len() == 1 { return Ok(*groups.keys().next().unwrap() as u128); }
      let mine = t[st.model[v as usize] as usize];
      let multi = st.multi_mask >> v & 1 == 1;
      for (val, g) in groups.iter() {
        if *val == mine { continue; }
        let k = ctx().konst(w, *val as u128);
        let c = ctx().eq(e, k);
        let patch = if multi { match self.solve(st, c, true) { Some(p) => p, None => continue } } else { vec![(v, dom_first(g))] };
        let mut s2 = st.clone();
        self.add(&mut s2, c, true, &patch);
        self.push_fork(s2);
      }
      let k = ctx().konst(w, mine as u128);
      let c = ctx().eq(e, k);
      self.add(st, c, true, &[]);
      self.after_fork(st)?;
      return Ok(mine as u128);
    }
    // multi-variable: two-way fork on the current model's value
    let mine = ctx().eval(e, &st.model);
    let k = ctx().konst(w, mine);
    let c = ctx().eq(e, k);
    if let Some(p) = self.solve(st, c, false) {
      let mut s2 = st.clone();
      self.add(&mut s2, c, false, &p);
      self.push_fork(s2);
      self.add(st, c, true, &[]);
      st.eqs.push((e, mine));
      self.after_fork(st)?;
    } else { st.eqs.push((e, mine)); }
    Ok(mine)
  }
  fn push_fork(&mut self, mut s: State) { self.st.forks += 1; s.forks += 1; self.pending.push(s); }
  fn after_fork(&mut self, st: &mut State) -> R<()> {
    st.forks += 1;
    if self.yield_mode { Err(Stop::Yield) } else { Ok(()) }
  }
  /// decide a condition, forking if both outcomes are possible; the clone takes `false` and is
  /// positioned by `f`
  fn decide(&mut self, st: &mut State, e: E, f: &mut dyn FnMut(&mut State, bool)) -> R<bool> {
    if let Some(v) = self.norm(st, e) { let b = v == 1; f(st, b); return Ok(b); }
    let (t, fl) = self.feasible(st, e);
    match (t, fl) {
      (Some(_), None) => { f(st, true); Ok(true) },
      (None, Some(_)) => { f(st, false); Ok(false) },
      (Some(pt), Some(pf)) => {
        let mut s2 = st.clone();
        self.add(&mut s2, e, false, &pf);
        f(&mut s2, false);
        self.push_fork(s2);
        self.add(st, e, true, &pt);
        f(st, true);
        self.after_fork(st)?;
        Ok(true)
      },
      _ => panic!("path condition unsatisfiable"),
    }
  }

  // ---------- path ends ----------
  fn error(&mut self, st: &State, kind: &str, msg: String) -> Stop {
    self.st.paths += 1;
    self.violation(kind, &msg, st.model.clone());
    self.finish(st);
    Stop::End
  }
  pub fn violation(&mut self, kind: &str, msg: &str, model: Vec<u8>) {
    if let Some(v) = self.viol.iter_mut().find(|v| v.kind == kind && v.msg == msg) { v.count += 1; return; }
    self.viol.push(Violation { kind: kind.into(), msg: msg.into(), model, count: 1 });
  }
  fn finish(&mut self, st: &State) {
    for l in &st.labels { *self.st.labels.entry(l.to_string()).or_insert(0) += 1; }
    if st.multi.is_empty() { self.st.valuations += st.dom.iter().map(|d| dom_count(d) as f64).product::<f64>(); } else { self.st.multi_paths += 1; }
    self.st.steps += st.steps;
  }
  fn end_ok(&mut self, st: &State, panicked: Option<String>) -> Stop {
    self.st.paths += 1;
    self.finish(st);
    self.nsamples += 1;
    let cap = self.sample_cap as usize;
    let slot = if self.samples.len() < cap { self.samples.len() } else { (self.rand() % self.nsamples) as usize };
    if slot < cap {
      let mut tr: Vec<String> = st.emits.iter().map(|x| match x {
        Emit::V(t, v) => format!("{}:{}", t, v),
        Emit::E(t, e) => format!("{}:{}", t, ctx().eval(*e, &st.model)),
      }).collect();
      if panicked.is_some() { tr.push("panic".into()); }
      let smp = (st.model.clone(), tr);
      if slot < self.samples.len() { self.samples[slot] = smp } else { self.samples.push(smp) }
    }
    Stop::End
  }
  fn bug(&self, st: &State, msg: &str) -> ! {
    eprintln!("llsym: {}", msg);
    for f in st.frames.iter().rev().take(12) { eprintln!("   in {}", f.func.name); }
    eprintln!("   model {:?}", st.model);
    std::process::exit(3)
  }
  fn stack(&self, st: &State) -> String {
    st.frames.iter().rev().map(|f| f.func.name.to_string()).take(6).collect::<Vec<_>>().join(" < ")
  }

  // ---------- memory ----------
  fn obj<'b>(&'b mut self, st: &'b State, id: u32) -> Option<&'b Rc<Obj>> {
    if let Some(o) = st.mem.get(id) { return Some(unsafe { &*(o as *const Rc<Obj>) }); }
    if id >= 1 && id <= self.nglob {
      let g = (id - 1) as usize;
      if self.gcache[g].is_none() {
        let data = self.m.global_init(g as u32);
        self.gcache[g] = Some(Rc::new(Obj { data, sym: None, ro: self.m.globals[g].is_const }));
      }
      return self.gcache[g].as_ref();
    }
    None
  }
  fn obj_mut<'b>(&'b mut self, st: &'b mut State, id: u32) -> Option<&'b mut Obj> {
    if id >= 1 && id <= self.nglob && st.mem.get(id).is_none() {
      let o = self.obj(st, id)?.clone();
      st.mem.set(id, Some(o));
    }
    st.mem.get_mut(id)
  }
  fn mem_err(&mut self, st: &State, what: &str, addr: u64, n: u64) -> Stop {
    let s = self.stack(st);
    if std::env::var("LLSYM_DEBUG").is_ok() { eprintln!("memory error {} addr {:x} n {} in {}", what, addr, n, s); }
    let f = st.frames.last().unwrap().func.name.to_string();
    self.error(st, "memory", format!("invalid {} in {}", what, f))
  }
  fn check_range(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<()> {
    if n == 0 { return Ok(()); }
    let (id, off) = ((addr >> 32) as u32, addr as u32 as u64);
    match self.obj(st, id) {
      Some(o) if off + n <= o.data.len() as u64 => Ok(()),
      _ => Err(self.mem_err(st, what, addr, n)),
    }
  }
  fn load(&mut self, st: &mut State, ty: &Ty, sz: u8, p: &Val) -> R<Val> {
    let addr = match p {
      Val::C(a) => *a,
      Val::S(e) => {
        if let Some(v) = self.norm(st, *e) { v as u64 } else {
          if sz > 0 { if let Some(v) = self.load_table(st, *e, sz, ty.bits()) { return Ok(v); } }
          self.conc_e(st, *e)? as u64
        }
      },
      _ => panic!("load ptr"),
    };
    if sz > 0 {
      let (id, off) = ((addr >> 32) as u32, addr as u32);
      let n = sz as usize;
      let bits = ty.bits();
      match self.obj(st, id) {
        Some(o) if off as usize + n <= o.data.len() => {
          if o.sym.is_none() || !o.has_sym(off, n as u32) {
            let d = &o.data[off as usize..off as usize + n];
            let mut v = 0u64;
            for (i, b) in d.iter().enumerate() { v |= (*b as u64) << (8 * i); }
            if bits < 64 { v &= m64(bits); }
            return Ok(Val::C(v));
          }
          let o = o.clone();
          let mut e = o.byte(off + n as u32 - 1);
          for i in (0..n as u32 - 1).rev() { let b = o.byte(off + i); e = ctx().concat(e, b); }
          if bits < 8 * n as u32 { e = ctx().extract(e, 0, bits); }
          if let Some(v) = self.norm(st, e) { return Ok(Val::C(v as u64)); }
          return Ok(mkval(e));
        },
        _ => return Err(self.mem_err(st, "load", addr, n as u64)),
      }
    }
    self.load_agg(st, ty, addr)
  }
  fn load_agg(&mut self, st: &mut State, ty: &Ty, addr: u64) -> R<Val> {
    match ty {
      Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
        let mut v = vec![];
        for i in 0..ty.nfields() { let t = ty.field_ty(i); v.push(self.load_agg(st, &t, addr + ty.field_offset(i))?); }
        Ok(Val::A(Rc::new(v)))
      },
      _ if ty.bits() <= 64 => { let s = ty.store_size() as u8; self.load(st, ty, s, &Val::C(addr)) },
      _ => {
        let n = ty.store_size();
        self.check_range(st, addr, n, "load")?;
        let o = self.obj(st, (addr >> 32) as u32).unwrap().clone();
        let off = addr as u32;
        if !o.has_sym(off, n as u32) {
          let mut v = 0u128;
          for i in 0..n as usize { v |= (o.data[off as usize + i] as u128) << (8 * i); }
          return Ok(Val::W(Rc::new(v & mask(ty.bits()))));
        }
        let mut e = o.byte(off + n as u32 - 1);
        for i in (0..n as u32 - 1).rev() { let b = o.byte(off + i); e = ctx().concat(e, b); }
        if ty.bits() < 8 * n as u32 { e = ctx().extract(e, 0, ty.bits()); }
        Ok(mkval(e))
      },
    }
  }
  /// load through an address that depends on one variable: build a table
  fn load_table(&mut self, st: &State, e: E, sz: u8, bits: u32) -> Option<Val> {
    let sup = ctx().sup(e);
    if sup.count_ones() != 1 { return None; }
    let v = sup.trailing_zeros();
    let t = ctx().nodes[e as usize].tab.clone()?;
    let mut out = [0u64; 256];
    let d = st.dom[v as usize];
    let mut filler = None;
    let mut cache: HashMap<u64, u64> = HashMap::new();
    for x in dom_iter(&d) {
      let a = t[x as usize];
      let val = match cache.get(&a) {
        Some(v) => *v,
        None => {
          let (id, off) = ((a >> 32) as u32, a as u32);
          let o = self.obj(st, id)?;
          if off as usize + sz as usize > o.data.len() || o.has_sym(off, sz as u32) { return None; }
          let mut r = 0u64;
          for i in 0..sz as usize { r |= (o.data[off as usize + i] as u64) << (8 * i); }
          r &= m64(bits);
          cache.insert(a, r);
          r
        },
      };
      out[x as usize] = val;
      filler = Some(val);
    }
    let f = filler?;
    for x in 0..256usize { if !dom_has(&d, x as u8) { out[x] = f; } }
    Some(mkval(ctx().lut(v, bits, out)))
  }
  fn store(&mut self, st: &mut State, ty: &Ty, sz: u8, v: &Val, p: &Val) -> R<()> {
    let addr = self.conc(st, p)?;
    let (id, off) = ((addr >> 32) as u32, addr as u32);
    match v {
      Val::C(x) if sz > 0 => {
        let n = sz as usize;
        match self.obj_mut(st, id) {
          Some(o) if off as usize + n <= o.data.len() && !o.ro => {
            if o.sym.is_some() { o.clear_sym(off, n as u32); }
            let b = x.to_le_bytes();
            o.data[off as usize..off as usize + n].copy_from_slice(&b[..n]);
            Ok(())
          },
          _ => Err(self.mem_err(st, "store", addr, n as u64)),
        }
      },
      Val::A(vs) => {
        for i in 0..ty.nfields() {
          let t = ty.field_ty(i);
          let s = if t.bits() > 0 && t.bits() <= 64 { t.store_size() as u8 } else { 0 };
          self.store(st, &t, s, &vs[i], &Val::C(addr + ty.field_offset(i)))?;
        }
        Ok(())
      },
      Val::C(x) => { let w = Val::W(Rc::new(*x as u128)); self.store(st, ty, sz, &w, p) },
      _ => {
        let n = ty.store_size() as u32;
        let bits = ty.bits();
        let mut e = to_e(v, bits);
        if bits < 8 * n { e = ctx().zext(e, 8 * n); }
        let ok = match self.obj_mut(st, id) {
          Some(o) if (off + n) as usize <= o.data.len() && !o.ro => {
            for i in 0..n { let b = ctx().extract(e, 8 * i, 8); o.set_byte(off + i, b); }
            true
          },
          _ => false,
        };
        if ok { Ok(()) } else { Err(self.mem_err(st, "store", addr, n as u64)) }
      },
    }
  }
  fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
    if n == 0 { return Ok(()); }
    self.check_range(st, s, n, "memcpy source")?;
    self.check_range(st, d, n, "memcpy destination")?;
    let so = self.obj(st, (s >> 32) as u32).unwrap().clone();
    let (sf, df, n) = (s as u32, d as u32, n as u32);
    let syms: Vec<(u32, E)> = match &so.sym { None => vec![], Some(m) => m.range(sf..sf + n).map(|x| (*x.0 - sf, *x.1)).collect() };
    let bytes: Vec<u8> = so.data[sf as usize..(sf + n) as usize].to_vec();
    drop(so);
    let o = self.obj_mut(st, (d >> 32) as u32).unwrap();
    if o.sym.is_some() { o.clear_sym(df, n); }
    o.data[df as usize..(df + n) as usize].copy_from_slice(&bytes);
    for (k, e) in syms { o.set_byte(df + k, e); }
    Ok(())
  }
  fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> Vec<u8> {
    if n == 0 { return vec![]; }
    match self.obj(st, (a >> 32) as u32) {
      Some(o) => { let off = a as u32 as usize; o.data.get(off..off + n as usize).map(|x| x.to_vec()).unwrap_or_default() },
      None => vec![],
    }
  }
  fn read_u64(&mut self, st: &State, a: u64) -> u64 {
    let b = self.read_bytes(st, a, 8);
    if b.len() < 8 { 0 } else { u64::from_le_bytes(b.try_into().unwrap()) }
  }

  // ---------- main loop ----------
  #[inline]
  fn get(fr: &Frame, o: &Opnd) -> Val {
    match o {
      Opnd::Reg(r) => fr.regs[*r as usize].clone(),
      Opnd::Imm(x) => Val::C(*x),
      Opnd::Big(c) => const_val(c),
    }
  }
  fn getn(&self, st: &State, fr: &Frame, o: &Opnd) -> Val {
    let v = Self::get(fr, o);
    if let Val::S(e) = v { if let Some(c) = self.norm(st, e) { return if ctx().w(e) <= 64 { Val::C(c as u64) } else { Val::W(Rc::new(c)) }; } }
    v
  }

  pub fn run(&mut self, st: &mut State) -> Stop {
    loop {
      // top frame, made unique
      let fr: *mut Frame = { let n = st.frames.len() - 1; Rc::make_mut(&mut st.frames[n]) as *mut Frame };
      let func = unsafe { (*fr).func.clone() };
      let code: &[Inst] = &func.code;
      loop {
        let fr = unsafe { &mut *fr };
        let inst = &code[fr.pc as usize];
        st.steps += 1;
        if st.steps > self.max_steps { return self.error(st, "hang", format!("no result within {} instructions", self.max_steps)); }
        match inst {
          Inst::Bin(op, w, d, a, b) => {
            let (va, vb) = (self.getn(st, fr, a), self.getn(st, fr, b));
            let r = match (&va, &vb) {
              (Val::C(x), Val::C(y)) => {
                let (x, y) = (*x, *y);
                let m = m64(*w);
                match op {
                  Bin::Add => Val::C(x.wrapping_add(y) & m),
                  Bin::Sub => Val::C(x.wrapping_sub(y) & m),
                  Bin::And => Val::C(x & y),
                  Bin::Or => Val::C(x | y),
                  Bin::Xor => Val::C(x ^ y),
                  Bin::Mul => Val::C(x.wrapping_mul(y) & m),
                  Bin::Shl => Val::C(if y >= *w as u64 { 0 } else { (x << y) & m }),
                  Bin::LShr => Val::C(if y >= *w as u64 { 0 } else { x >> y }),
                  _ => {
                    if y == 0 && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { return self.error(st, "memory", "division by zero (UB)".into()); }
                    Val::C(eval_bin(*op, *w, x as u128, y as u128) as u64)
                  },
                }
              },
              (Val::W(_), Val::W(_)) | (Val::W(_), Val::C(_)) | (Val::C(_), Val::W(_)) => {
                let f = |v: &Val| match v { Val::W(x) => **x, Val::C(x) => *x as u128, _ => 0 };
                Val::W(Rc::new(eval_bin(*op, *w, f(&va), f(&vb))))
              },
              _ => {
                let (ea, eb) = (to_e(&va, *w), to_e(&vb, *w));
                mkval(ctx().bin(*op, *w, ea, eb))
              },
            };
            fr.regs[*d as usize] = r;
            fr.pc += 1;
          },
          Inst::ICmp(p, w, d, a, b) => {
            let (va, vb) = (self.getn(st, fr, a), self.getn(st, fr, b));
            let r = match (&va, &vb) {
              (Val::C(x), Val::C(y)) => {
                let (x, y) = (*x, *y);
                let s = |v: u64| sext(v, *w) as i64;
                Val::C(match p {
                  Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                  Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y),
                } as u64)
              },
              _ => {
                let (ea, eb) = (to_e(&va, *w), to_e(&vb, *w));
                let c = ctx();
                mkval(match p {
                  Pred::Eq => c.eq(ea, eb),
                  Pred::Ne => { let e = c.eq(ea, eb); c.not1(e) },
                  Pred::Ugt => c.cmp(Op::Ult, eb, ea),
                  Pred::Uge => c.cmp(Op::Ule, eb, ea),
                  Pred::Ult => c.cmp(Op::Ult, ea, eb),
                  Pred::Ule => c.cmp(Op::Ule, ea, eb),
                  Pred::Sgt => c.cmp(Op::Slt, eb, ea),
                  Pred::Sge => c.cmp(Op::Sle, eb, ea),
                  Pred::Slt => c.cmp(Op::Slt, ea, eb),
                  Pred::Sle => c.cmp(Op::Sle, ea, eb),
                })
              },
            };
            fr.regs[*d as usize] = r;
            fr.pc += 1;
          },
          Inst::Load(d, ty, sz, p) => {
            let a = Self::get(fr, p);
            match self.load(st, ty, *sz, &a) {
              Ok(v) => {
                // st may have been cloned; re-resolve the frame
                let n = st.frames.len() - 1;
                let f2 = Rc::make_mut(&mut st.frames[n]);
                f2.regs[*d as usize] = v;
                f2.pc += 1;
                if f2 as *mut Frame != fr as *mut Frame { break; }
              },
              Err(s) => return s,
            }
          },
          Inst::Store(ty, sz, v, p) => {
            let val = self.getn(st, fr, v);
            let a = Self::get(fr, p);
            match self.store(st, ty, *sz, &val, &a) {
              Ok(()) => {
                let n = st.frames.len() - 1;
                let f2 = Rc::make_mut(&mut st.frames[n]);
                f2.pc += 1;
                if f2 as *mut Frame != fr as *mut Frame { break; }
              },
              Err(s) => return s,
            }
          },
          Inst::Gep(d, base, cst, dyns) => {
            let b = self.getn(st, fr, base);
            let mut sym = None;
            let mut acc = *cst;
            match b { Val::C(x) => acc = acc.wrapping_add(x), Val::S(e) => sym = Some(e), _ => panic!("gep base") }
            for (o, w, sc) in dyns.iter() {
              match self.getn(st, fr, o) {
                Val::C(x) => acc = acc.wrapping_add(sext(x, *w).wrapping_mul(*sc)),
                Val::S(e) => {
                  let c = ctx();
                  let x = c.sext(e, 64);
                  let k = c.konst(64, *sc as u128);
                  let x = c.bin(Bin::Mul, 64, x, k);
                  sym = Some(match sym { None => x, Some(y) => c.bin(Bin::Add, 64, y, x) });
                },
                _ => panic!("gep idx"),
              }
            }
            fr.regs[*d as usize] = match sym {
              None => Val::C(acc),
              Some(e) => { let c = ctx(); let k = c.konst(64, acc as u128); mkval(c.bin(Bin::Add, 64, e, k)) },
            };
            fr.pc += 1;
          },
          Inst::Br(t) => { goto(fr, *t); },
          Inst::CondBr(c, t, f) => {
            match Self::get(fr, c) {
              Val::C(x) => goto(fr, if x & 1 == 1 { *t } else { *f }),
              Val::S(e) => {
                let (t, f) = (*t, *f);
                match self.decide(st, e, &mut |s, b| { let n = s.frames.len() - 1; goto(Rc::make_mut(&mut s.frames[n]), if b { t } else { f }) }) {
                  Ok(_) => break,
                  Err(s) => return s,
                }
              },
              _ => panic!("br cond"),
            }
          },
          Inst::Switch(c, w, def, cases) => {
            match self.getn(st, fr, c) {
              Val::C(x) => { let t = cases.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*def); goto(fr, t); },
              Val::S(e) => match self.switch(st, e, *w, *def, cases) { Ok(()) => break, Err(s) => return s },
              _ => panic!("switch"),
            }
          },
          Inst::Select(d, w, c, a, b) => {
            let r = match self.getn(st, fr, c) {
              Val::C(x) => Self::get(fr, if x & 1 == 1 { a } else { b }),
              Val::S(e) => {
                if *w == 0 { match self.conc_e(st, e) { Ok(_) => break, Err(s) => return s } }
                let (va, vb) = (self.getn(st, fr, a), self.getn(st, fr, b));
                let (ea, eb) = (to_e(&va, *w), to_e(&vb, *w));
                mkval(ctx().ite(e, ea, eb))
              },
              _ => panic!("select cond"),
            };
            fr.regs[*d as usize] = r;
            fr.pc += 1;
          },
          Inst::Cast(k, f, t, d, a) => {
            let v = self.getn(st, fr, a);
            let r = match (k, &v) {
              (Cast::Bit, _) => v,
              (Cast::Trunc, Val::C(x)) => Val::C(*x & m64(*t)),
              (Cast::ZExt, Val::C(x)) => if *t > 64 { Val::W(Rc::new(*x as u128)) } else { Val::C(*x) },
              (Cast::SExt, Val::C(x)) => if *t > 64 { Val::W(Rc::new((sext(*x, *f) as i64 as i128 as u128) & mask(*t))) } else { Val::C(sext(*x, *f) & m64(*t)) },
              (Cast::Trunc, Val::W(x)) => if *t <= 64 { Val::C(**x as u64 & m64(*t)) } else { Val::W(Rc::new(**x & mask(*t))) },
              (Cast::ZExt, Val::W(_)) => v,
              (Cast::Trunc, Val::S(e)) => mkval(ctx().extract(*e, 0, *t)),
              (Cast::ZExt, Val::S(e)) => mkval(ctx().zext(*e, *t)),
              (Cast::SExt, Val::S(e)) => mkval(ctx().sext(*e, *t)),
              (Cast::UiToFp, Val::C(x)) => Val::C(if *t == 64 { (*x as f64).to_bits() } else { (*x as f32).to_bits() as u64 }),
              (Cast::SiToFp, Val::C(x)) => { let s = sext(*x, *f) as i64; Val::C(if *t == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 }) },
              (Cast::FpToUi, Val::C(x)) => Val::C((if *f == 64 { f64::from_bits(*x) as u64 } else { f32::from_bits(*x as u32) as u64 }) & m64(*t)),
              (Cast::FpToSi, Val::C(x)) => Val::C((if *f == 64 { f64::from_bits(*x) as i64 } else { f32::from_bits(*x as u32) as i64 }) as u64 & m64(*t)),
              (Cast::FpExt, Val::C(x)) => Val::C((f32::from_bits(*x as u32) as f64).to_bits()),
              (Cast::FpTrunc, Val::C(x)) => Val::C((f64::from_bits(*x) as f32).to_bits() as u64),
              (_, Val::S(e)) => match self.conc_e(st, *e) { Ok(_) => break, Err(s) => return s },
              _ => self.bug(st, "cast"),
            };
            fr.regs[*d as usize] = r;
            fr.pc += 1;
          },
          Inst::Call(d, callee, args, rty) => {
            match self.call(st, fr, *d, callee, args, rty) {
              Ok(true) => break,
              Ok(false) => {},
              Err(s) => return s,
            }
          },
          Inst::Ret(v) => {
            let val = v.as_ref().map(|o| self.getn(st, fr, o));
            for a in std::mem::take(&mut fr.allocas) { st.mem.release(a); }
            let ret = fr.ret;
            st.frames.pop();
            if st.frames.is_empty() { return self.end_ok(st, None); }
            if let (Some(r), Some(v)) = (ret, val) {
              let n = st.frames.len() - 1;
              Rc::make_mut(&mut st.frames[n]).regs[r as usize] = v;
            }
            break;
          },
          Inst::Alloca(d, sz, cnt, _) => {
            let c = self.getn(st, fr, cnt);
            let n = match c { Val::C(x) => x, Val::S(e) => match self.conc_e(st, e) { Ok(_) => break, Err(s) => return s }, _ => self.bug(st, "alloca") };
            let id = st.mem.alloc(sz * n);
            fr.allocas.push(id);
            fr.regs[*d as usize] = Val::C((id as u64) << 32);
            fr.pc += 1;
          },
          Inst::ExtractValue(d, a, path) => {
            let mut v = self.getn(st, fr, a);
            for i in path.iter() { v = match v { Val::A(x) => x[*i as usize].clone(), _ => panic!("extractvalue") }; }
            fr.regs[*d as usize] = v;
            fr.pc += 1;
          },
          Inst::InsertValue(d, a, b, path, ty) => {
            let base = match Self::get(fr, a) { Val::A(x) => Val::A(x), Val::C(_) => zero_val(ty), _ => panic!("insertvalue") };
            let v = Self::get(fr, b);
            fr.regs[*d as usize] = insert(base, &path[..], v);
            fr.pc += 1;
          },
          Inst::Copy(d, a) => { fr.regs[*d as usize] = Self::get(fr, a); fr.pc += 1; },
          Inst::Unreachable => { let s = self.stack(st); return self.error(st, "memory", format!("reached unreachable code in {}", s)); },
          Inst::FBin(op, is64, d, a, b) => {
            let (x, y) = (self.getn(st, fr, a), self.getn(st, fr, b));
            if let (Val::S(e), _) | (_, Val::S(e)) = (&x, &y) { match self.conc_e(st, *e) { Ok(_) => break, Err(s) => return s } }
            let (x, y) = match (x, y) { (Val::C(x), Val::C(y)) => (x, y), _ => panic!() };
            let r = if *is64 {
              let (x, y) = (f64::from_bits(x), f64::from_bits(y));
              (match op { FBin::FAdd => x + y, FBin::FSub => x - y, FBin::FMul => x * y, FBin::FDiv => x / y, FBin::FRem => x % y }).to_bits()
            } else {
              let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
              (match op { FBin::FAdd => x + y, FBin::FSub => x - y, FBin::FMul => x * y, FBin::FDiv => x / y, FBin::FRem => x % y }).to_bits() as u64
            };
            fr.regs[*d as usize] = Val::C(r);
            fr.pc += 1;
          },
          Inst::FNeg(is64, d, a) => {
            let x = match self.getn(st, fr, a) { Val::C(x) => x, Val::S(e) => match self.conc_e(st, e) { Ok(_) => break, Err(s) => return s }, _ => self.bug(st, "fneg") };
            fr.regs[*d as usize] = Val::C(if *is64 { x ^ (1 << 63) } else { x ^ (1 << 31) });
            fr.pc += 1;
          },
          Inst::FCmp(p, is64, d, a, b) => {
            let (x, y) = (self.getn(st, fr, a), self.getn(st, fr, b));
            if let (Val::S(e), _) | (_, Val::S(e)) = (&x, &y) { match self.conc_e(st, *e) { Ok(_) => break, Err(s) => return s } }
            let (x, y) = match (x, y) { (Val::C(x), Val::C(y)) => (x, y), _ => panic!() };
            let (x, y) = if *is64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match &**p {
              "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un,
              "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, "uno" => un,
              "true" => true, _ => false,
            };
            fr.regs[*d as usize] = Val::C(r as u64);
            fr.pc += 1;
          },
          Inst::CmpXchg(d, ty, p, a, b) => {
            let pv = self.getn(st, fr, p);
            let pv = match self.conc(st, &pv) { Ok(x) => Val::C(x), Err(s) => return s };
            let sz = ty.store_size() as u8;
            let old = match self.load(st, ty, sz, &pv) { Ok(v) => v, Err(s) => return s };
            let n = st.frames.len() - 1;
            let f2 = Rc::make_mut(&mut st.frames[n]) as *mut Frame;
            let exp = self.getn(st, unsafe { &*f2 }, a);
            let o = match self.conc(st, &old) { Ok(x) => x, Err(s) => return s };
            let e = match self.conc(st, &exp) { Ok(x) => x, Err(s) => return s };
            let ok = o == e;
            if ok { let nv = self.getn(st, unsafe { &*f2 }, b); if let Err(s) = self.store(st, ty, sz, &nv, &pv) { return s; } }
            let f2 = unsafe { &mut *f2 };
            f2.regs[*d as usize] = Val::A(Rc::new(vec![Val::C(o), Val::C(ok as u64)]));
            f2.pc += 1;
            break;
          },
          Inst::AtomicRmw(d, op, ty, p, a) => {
            let pv = self.getn(st, fr, p);
            let pv = match self.conc(st, &pv) { Ok(x) => Val::C(x), Err(s) => return s };
            let sz = ty.store_size() as u8;
            let w = ty.bits();
            let old = match self.load(st, ty, sz, &pv) { Ok(v) => v, Err(s) => return s };
            let n = st.frames.len() - 1;
            let f2 = Rc::make_mut(&mut st.frames[n]) as *mut Frame;
            let x = self.getn(st, unsafe { &*f2 }, a);
            let (oe, xe) = (to_e(&old, w), to_e(&x, w));
            let c = ctx();
            let nv = match &**op {
              "xchg" => xe, "add" => c.bin(Bin::Add, w, oe, xe), "sub" => c.bin(Bin::Sub, w, oe, xe),
              "and" => c.bin(Bin::And, w, oe, xe), "or" => c.bin(Bin::Or, w, oe, xe), "xor" => c.bin(Bin::Xor, w, oe, xe),
              "umax" => { let k = c.cmp(Op::Ult, oe, xe); c.ite(k, xe, oe) },
              "umin" => { let k = c.cmp(Op::Ult, oe, xe); c.ite(k, oe, xe) },
              "max" => { let k = c.cmp(Op::Slt, oe, xe); c.ite(k, xe, oe) },
              "min" => { let k = c.cmp(Op::Slt, oe, xe); c.ite(k, oe, xe) },
              "nand" => { let k = c.bin(Bin::And, w, oe, xe); let m = c.konst(w, mask(w)); c.bin(Bin::Xor, w, k, m) },
              _ => self.bug(st, "atomicrmw op"),
            };
            if let Err(s) = self.store(st, ty, sz, &mkval(nv), &pv) { return s; }
            let f2 = unsafe { &mut *f2 };
            f2.regs[*d as usize] = old;
            f2.pc += 1;
            break;
          },
          Inst::Nop => { fr.pc += 1; },
          Inst::Unsupported(s) => self.bug(st, &format!("unsupported instruction: {}", s)),
        }
      }
    }
  }

  fn switch(&mut self, st: &mut State, e: E, w: u32, def: u32, cases: &[(u64, u32)]) -> R<()> {
    // group cases by target
    let mut by: BTreeMap<u32, E> = BTreeMap::new();
    let mut none = ctx().konst(1, 1);
    for (k, t) in cases {
      let c = ctx();
      let kk = c.konst(w, *k as u128);
      let eq = c.eq(e, kk);
      let ne = c.not1(eq);
      none = c.bin(Bin::And, 1, none, ne);
      if *t == def { continue; }
      let cur = by.get(t).copied().unwrap_or_else(|| ctx().konst(1, 0));
      by.insert(*t, ctx().bin(Bin::Or, 1, cur, eq));
    }
    // default also takes the cases that point at it
    for (k, t) in cases { if *t == def { let c = ctx(); let kk = c.konst(w, *k as u128); let eq = c.eq(e, kk); none = c.bin(Bin::Or, 1, none, eq); } }
    let mut arms: Vec<(E, u32)> = by.into_iter().map(|(t, c)| (c, t)).collect();
    arms.push((none, def));
    let mut taken = None;
    for (c, t) in arms {
      let is_mine = match ctx().is_const(c) { Some(v) => { if v == 0 { continue; } true }, None => ctx().eval(c, &st.model) == 1 };
      if is_mine { taken = Some((c, t)); continue; }
      let sup = ctx().sup(c);
      let patch = if sup.count_ones() == 1 && st.multi_mask & sup == 0 {
        let v = sup.trailing_zeros();
        let d = dom_and(&st.dom[v as usize], &ctx().nodes[c as usize].bits);
        self.st.unary_decisions += 1;
        if dom_empty(&d) { continue; }
        vec![(v, dom_first(&d))]
      } else {
        if sup.count_ones() == 1 {
          let v = sup.trailing_zeros();
          if dom_empty(&dom_and(&st.dom[v as usize], &ctx().nodes[c as usize].bits)) { continue; }
        }
        match self.solve(st, c, true) { Some(p) => p, None => continue }
      };
      let mut s2 = st.clone();
      self.add(&mut s2, c, true, &patch);
      { let n = s2.frames.len() - 1; goto(Rc::make_mut(&mut s2.frames[n]), t); }
      self.push_fork(s2);
    }
    let (c, t) = taken.expect("switch arm");
    let before = st.forks;
    self.add(st, c, true, &[]);
    { let n = st.frames.len() - 1; goto(Rc::make_mut(&mut st.frames[n]), t); }
    let _ = before;
    self.after_fork(st)
  }

  /// Ok(true): frame changed, restart the outer loop
  fn call(&mut self, st: &mut State, fr: &mut Frame, d: Option<u32>, callee: &Callee, args: &[Opnd], rty: &Ty) -> R<bool> {
    let id = match callee {
      Callee::Direct(id) => *id,
      Callee::Asm => { fr.pc += 1; return Ok(false); },
      Callee::Indirect(o) => {
        let v = self.getn(st, fr, o);
        let a = self.conc(st, &v)?;
        match addr_fn(a) { Some(i) if (i as usize) < self.m.fns.len() => i, _ => return Err(self.mem_err(st, "call target", a, 0)) }
      },
    };
    match self.func(id) {
      Ok(f) => {
        // a fork during conc may have made `fr` shared: always work on the unique top frame
        let n = st.frames.len() - 1;
        if n > 3000 { return Err(self.error(st, "hang", "call depth over 3000".into())); }
        let fr = Rc::make_mut(&mut st.frames[n]) as *mut Frame;
        let fr = unsafe { &mut *fr };
        let mut regs = Vec::with_capacity(f.nregs as usize);
        for a in args.iter() { regs.push(self.getn(st, fr, a)); }
        regs.resize(f.nregs as usize, Val::C(0));
        fr.pc += 1;
        if self.trace_fn { eprintln!("{}call {} {:?}", " ".repeat(st.frames.len()), f.name, &regs[..args.len().min(6)]); }
        if let Some(p) = &mut self.prof { *p.entry(id).or_insert(0) += 1; }
        let start = f.blocks[0].start;
        st.frames.push(Rc::new(Frame { func: f, pc: start, cur: 0, regs, allocas: vec![], ret: d }));
        Ok(true)
      },
      Err(x) => {
        let vals: Vec<Val> = args.iter().map(|a| self.getn(st, fr, a)).collect();
        let r = self.ext(st, x, id, &vals, rty, args)?;
        let n = st.frames.len() - 1;
        let f2 = Rc::make_mut(&mut st.frames[n]);
        if let (Some(d), Some(v)) = (d, r) { f2.regs[d as usize] = v; }
        f2.pc += 1;
        Ok(true)
      },
    }
  }

  fn ext(&mut self, st: &mut State, x: X, id: u32, a: &[Val], rty: &Ty, _raw: &[Opnd]) -> R<Option<Val>> {
    let w = match rty { Ty::Struct(ts, _) if !ts.is_empty() => ts[0].bits(), t => t.bits() };
    let sym = a.iter().any(|v| matches!(v, Val::S(_)));
    Ok(match x {
      X::Nop0 => if w > 0 { Some(Val::C(0)) } else { None },
      X::Ident => Some(a[0].clone()),
      X::Hint => None,
      X::Malloc => { let n = self.conc(st, &a[0])?; self.alloc(st, n)? },
      X::Calloc => { let n = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; self.alloc(st, n.wrapping_mul(k))? },
      X::PosixMemalign => {
        let n = self.conc(st, &a[2])?;
        let p = self.alloc(st, n)?.unwrap();
        self.store(st, &Ty::Ptr, 8, &p, &a[0])?;
        Some(Val::C(0))
      },
      X::Realloc => {
        let p = self.conc(st, &a[0])?;
        let n = self.conc(st, &a[1])?;
        if p == 0 { return self.alloc(st, n); }
        let old = (p >> 32) as u32;
        let osz = match self.obj(st, old) { Some(o) => o.data.len() as u64, None => return Err(self.mem_err(st, "realloc", p, n)) };
        let q = self.alloc(st, n)?.unwrap();
        if let Val::C(qa) = q { self.copy(st, qa, p, osz.min(n))?; }
        st.mem.release(old);
        Some(q)
      },
      X::Free => {
        let p = self.conc(st, &a[0])?;
        if p != 0 {
          let idd = (p >> 32) as u32;
          if idd <= self.nglob || st.mem.get(idd).is_none() || p as u32 != 0 { return Err(self.mem_err(st, "free", p, 0)); }
          st.mem.release(idd);
        }
        None
      },
      X::Memcpy | X::Memmove => {
        let n = self.conc(st, &a[2])?;
        if n > 0 { let d = self.conc(st, &a[0])?; let s = self.conc(st, &a[1])?; self.copy(st, d, s, n)?; }
        if w > 0 { Some(a[0].clone()) } else { None }
      },
      X::Memset => {
        let n = self.conc(st, &a[2])?;
        if n > 0 {
          let d = self.conc(st, &a[0])?;
          self.check_range(st, d, n, "memset")?;
          let v = a[1].clone();
          let o = self.obj_mut(st, (d >> 32) as u32).unwrap();
          let off = d as u32;
          match v {
            Val::C(b) => { if o.sym.is_some() { o.clear_sym(off, n as u32); } for i in 0..n as usize { o.data[off as usize + i] = b as u8; } },
            Val::S(e) => { let e = ctx().extract(e, 0, 8); for i in 0..n as u32 { o.set_byte(off + i, e); } },
            _ => panic!(),
          }
        }
        if w > 0 { Some(a[0].clone()) } else { None }
      },
      X::Bcmp => {
        let n = self.conc(st, &a[2])?;
        let is_bcmp = &*self.m.fns[id as usize].name == "bcmp";
        if n == 0 { return Ok(Some(Val::C(0))); }
        let p = self.conc(st, &a[0])?;
        let q = self.conc(st, &a[1])?;
        self.check_range(st, p, n, "memcmp")?;
        self.check_range(st, q, n, "memcmp")?;
        let po = self.obj(st, (p >> 32) as u32).unwrap().clone();
        let qo = self.obj(st, (q >> 32) as u32).unwrap().clone();
        let (pf, qf) = (p as u32, q as u32);
        let mut pairs = vec![];
        for i in 0..n as u32 {
          let (mut x, mut y) = (po.byte(pf + i), qo.byte(qf + i));
          if let Some(v) = self.norm(st, x) { x = ctx().konst(8, v); }
          if let Some(v) = self.norm(st, y) { y = ctx().konst(8, v); }
          if x == y { continue; }
          let differ = ctx().is_const(x).is_some() && ctx().is_const(y).is_some();
          if differ && is_bcmp { return Ok(Some(Val::C(1))); }
          pairs.push((x, y));
          if differ { break; }
        }
        let c = ctx();
        if is_bcmp {
          let mut all = c.konst(1, 1);
          for (x, y) in pairs { let e = c.eq(x, y); all = c.bin(Bin::And, 1, all, e); }
          let ne = c.not1(all);
          Some(mkval(c.zext(ne, 32)))
        } else {
          let mut r = c.konst(32, 0);
          for (x, y) in pairs.into_iter().rev() {
            let e = c.eq(x, y);
            let lt = c.cmp(Op::Ult, x, y);
            let m1 = c.konst(32, 0xffff_ffff);
            let p1 = c.konst(32, 1);
            let k = c.ite(lt, m1, p1);
            r = c.ite(e, r, k);
          }
          Some(mkval(r))
        }
      },
      X::Strlen => {
        let p = self.conc(st, &a[0])?;
        let mut n = 0u64;
        loop {
          let b = self.load(st, &Ty::Int(8), 1, &Val::C(p + n))?;
          match b {
            Val::C(0) => break,
            Val::C(_) => n += 1,
            b => {
              let z = { let x = to_e(&b, 8); let c = ctx(); let k = c.konst(8, 0); c.eq(x, k) };
              if self.conc_e(st, z)? == 1 { break }
              n += 1;
            },
          }
        }
        Some(Val::C(n))
      },
      X::Memchr => self.bug(st, "memchr"),
      X::UMax | X::UMin | X::SMax | X::SMin => {
        let (p, q) = (to_e(&a[0], w), to_e(&a[1], w));
        let c = ctx();
        let lt = if matches!(x, X::UMax | X::UMin) { c.cmp(Op::Ult, p, q) } else { c.cmp(Op::Slt, p, q) };
        let r = if matches!(x, X::UMax | X::SMax) { c.ite(lt, q, p) } else { c.ite(lt, p, q) };
        Some(mkval(r))
      },
      X::Ctpop | X::Ctlz | X::Cttz => {
        let f = |v: u128| -> u128 { (match x { X::Ctpop => v.count_ones(), X::Ctlz => if v == 0 { w } else { v.leading_zeros() - (128 - w) }, _ => if v == 0 { w } else { v.trailing_zeros() } }) as u128 };
        match &a[0] {
          Val::C(v) => Some(Val::C(f(*v as u128) as u64)),
          Val::W(v) => Some(Val::W(Rc::new(f(**v)))),
          Val::S(e) => match self.map1(*e, w, &f) {
            Some(r) => Some(mkval(r)),
            None => {
              let e = *e;
              let c = ctx();
              if x == X::Ctpop {
                let mut r = c.konst(w, 0);
                for i in 0..w { let b = c.extract(e, i, 1); let b = c.zext(b, w); r = c.bin(Bin::Add, w, r, b); }
                Some(mkval(r))
              } else {
                let mut r = c.konst(w, w as u128);
                // last assignment wins: iterate from the least significant position of interest
                for i in 0..w { let pos = if x == X::Ctlz { i } else { w - 1 - i }; let b = c.extract(e, pos, 1); let v = if x == X::Ctlz { w - 1 - i } else { w - 1 - i }; let k = c.konst(w, v as u128); r = c.ite(b, k, r); }
                Some(mkval(r))
              }
            },
          },
          _ => panic!(),
        }
      },
      X::Bswap | X::Bitrev => {
        let e = to_e(&a[0], w);
        let c = ctx();
        let step = if x == X::Bswap { 8 } else { 1 };
        let mut r = c.extract(e, 0, step);
        let mut i = step;
        while i < w { let b = c.extract(e, i, step); r = c.concat(r, b); i += step; }
        Some(mkval(r))
      },
      X::Fshl | X::Fshr => {
        let s = self.conc(st, &a[2])? % w as u64;
        let (h, l) = (to_e(&a[0], w), to_e(&a[1], w));
        let c = ctx();
        let s = s as u32;
        let r = if x == X::Fshl { if s == 0 { h } else { let p = c.extract(h, 0, w - s); let q = c.extract(l, w - s, s); c.concat(p, q) } }
        else { if s == 0 { l } else { let p = c.extract(h, 0, s); let q = c.extract(l, s, w - s); c.concat(p, q) } };
        Some(mkval(r))
      },
      X::UaddO | X::UsubO | X::UmulO | X::SaddO | X::SsubO | X::SmulO => {
        if !sym && w <= 64 {
          let (p, q) = match (&a[0], &a[1]) { (Val::C(p), Val::C(q)) => (*p, *q), _ => panic!() };
          let m = m64(w);
          let (sp, sq) = (sext(p, w) as i64 as i128, sext(q, w) as i64 as i128);
          let (up, uq) = (p as u128, q as u128);
          let fits_s = |v: i128| { let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; v >= lo && v <= hi };
          let (r, o) = match x {
            X::UaddO => ((up + uq) as u64 & m, up + uq > m as u128),
            X::UsubO => (p.wrapping_sub(q) & m, p < q),
            X::UmulO => (p.wrapping_mul(q) & m, up * uq > m as u128),
            X::SaddO => (p.wrapping_add(q) & m, !fits_s(sp + sq)),
            X::SsubO => (p.wrapping_sub(q) & m, !fits_s(sp - sq)),
            _ => (p.wrapping_mul(q) & m, !fits_s(sp * sq)),
          };
          Some(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u64)])))
        } else {
          let (p, q) = (to_e(&a[0], w), to_e(&a[1], w));
          let c = ctx();
          if w > 64 { self.bug(st, "wide overflow op"); }
          let (r, o) = match x {
            X::UaddO => { let s = c.bin(Bin::Add, w, p, q); let o = c.cmp(Op::Ult, s, p); (s, o) },
            X::UsubO => { let s = c.bin(Bin::Sub, w, p, q); let o = c.cmp(Op::Ult, p, q); (s, o) },
            X::UmulO => {
              let (p2, q2) = (c.zext(p, 2 * w), c.zext(q, 2 * w));
              let m = c.bin(Bin::Mul, 2 * w, p2, q2);
              let hi = c.extract(m, w, w);
              let z = c.konst(w, 0);
              let e = c.eq(hi, z);
              (c.extract(m, 0, w), c.not1(e))
            },
            _ => {
              let k = if x == X::SmulO { 2 * w } else { w + 1 };
              let (p2, q2) = (c.sext(p, k), c.sext(q, k));
              let op = match x { X::SaddO => Bin::Add, X::SsubO => Bin::Sub, _ => Bin::Mul };
              let m = c.bin(op, k, p2, q2);
              let lo = c.extract(m, 0, w);
              let back = c.sext(lo, k);
              let e = c.eq(back, m);
              (lo, c.not1(e))
            },
          };
          Some(Val::A(Rc::new(vec![mkval(r), mkval(o)])))
        }
      },
      X::UaddS | X::UsubS => {
        let (p, q) = (to_e(&a[0], w), to_e(&a[1], w));
        let c = ctx();
        if x == X::UaddS { let s = c.bin(Bin::Add, w, p, q); let o = c.cmp(Op::Ult, s, p); let m = c.konst(w, mask(w)); Some(mkval(c.ite(o, m, s))) }
        else { let s = c.bin(Bin::Sub, w, p, q); let o = c.cmp(Op::Ult, p, q); let z = c.konst(w, 0); Some(mkval(c.ite(o, z, s))) }
      },
      X::SaddS | X::SsubS => {
        let (p, q) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?); let (p, q) = (sext(p, w) as i64 as i128, sext(q, w) as i64 as i128);
        let v = if x == X::SaddS { p + q } else { p - q };
        let v = v.max(-(1i128 << (w - 1))).min((1i128 << (w - 1)) - 1);
        Some(Val::C(v as u64 & m64(w)))
      },
      X::Abs => {
        let p = to_e(&a[0], w);
        let c = ctx();
        let z = c.konst(w, 0);
        let neg = c.cmp(Op::Slt, p, z);
        let n = c.bin(Bin::Sub, w, z, p);
        Some(mkval(c.ite(neg, n, p)))
      },
      X::Ucmp | X::Scmp => {
        // operand width from the intrinsic's name suffix (…iR.iA)
        let nm = self.m.fns[id as usize].name.clone();
        let ow: u32 = nm.rsplit('.').next().unwrap()[1..].parse().unwrap();
        let (p, q) = (to_e(&a[0], ow), to_e(&a[1], ow));
        let c = ctx();
        let lt = c.cmp(if x == X::Ucmp { Op::Ult } else { Op::Slt }, p, q);
        let eq = c.eq(p, q);
        let (m1, z, one) = (c.konst(w, mask(w)), c.konst(w, 0), c.konst(w, 1));
        let r = c.ite(eq, z, one);
        Some(mkval(c.ite(lt, m1, r)))
      },
      X::PtrMask => { let (p, q) = (to_e(&a[0], 64), to_e(&a[1], 64)); Some(mkval(ctx().bin(Bin::And, 64, p, q))) },
      X::FloatFn => {
        let nm = self.m.fns[id as usize].name.clone();
        let single = nm.contains("f32");
        let mut v: Vec<f64> = Vec::new();
        let mut n = 0i32;
        for (i, x) in a.iter().enumerate() { let x = self.conc(st, x)?; if i == 1 && nm.contains("powi") { n = x as i32 } else { v.push(if single { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) }) } }
        let has = |s: &str| nm.strip_prefix("llvm.").unwrap_or(&nm).starts_with(s);
        if has("fptoui.sat") { let t = v[0]; return Ok(Some(Val::C(if t.is_nan() || t <= 0.0 { 0 } else if t >= (mask(w) as f64) { m64(w) } else { t as u64 & m64(w) }))); }
        if has("fptosi.sat") { let t = v[0]; let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); return Ok(Some(Val::C((if t.is_nan() { 0 } else { (t as i128).max(lo).min(hi) }) as u64 & m64(w)))); }
        let f = |g64: &dyn Fn(f64) -> f64, g32: &dyn Fn(f32) -> f32| if single { g32(v[0] as f32) as f64 } else { g64(v[0]) };
        let r = if has("log2") { f(&f64::log2, &f32::log2) } else if has("log10") { f(&f64::log10, &f32::log10) } else if has("log") { f(&f64::ln, &f32::ln) }
          else if has("exp2") { f(&f64::exp2, &f32::exp2) } else if has("exp") { f(&f64::exp, &f32::exp) } else if has("fabs") { v[0].abs() } else if has("floor") { v[0].floor() } else if has("ceil") { v[0].ceil() }
          else if has("trunc") { v[0].trunc() } else if has("roundeven") || has("rint") || has("nearbyint") { v[0].round_ties_even() } else if has("round") { v[0].round() }
          else if has("sqrt") { f(&f64::sqrt, &f32::sqrt) } else if has("minnum") || has("minimum") { v[0].min(v[1]) } else if has("maxnum") || has("maximum") { v[0].max(v[1]) } else if has("copysign") { v[0].copysign(v[1]) }
          else if has("sin") { f(&f64::sin, &f32::sin) } else if has("cos") { f(&f64::cos, &f32::cos) } else if has("powi") { if single { (v[0] as f32).powi(n) as f64 } else { v[0].powi(n) } } else if has("pow") { if single { (v[0] as f32).powf(v[1] as f32) as f64 } else { v[0].powf(v[1]) } }
          else if has("fma") { if single { (v[0] as f32).mul_add(v[1] as f32, v[2] as f32) as f64 } else { v[0].mul_add(v[1], v[2]) } }
          else { self.bug(st, &format!("float fn {}", nm)) };
        Some(Val::C(if single { (r as f32).to_bits() as u64 } else { r.to_bits() }))
      },
      X::Getenv => Some(Val::C(0)),
      X::Write => {
        let fd = self.conc(st, &a[0])? as u32 as usize;
        let open = if fd >= 3 { st.fds.get(fd - 3).copied().flatten() } else { None };
        if let Some((f, pos, app)) = open {
          let p = self.conc(st, &a[1])?; let n = self.conc(st, &a[2])?;
          let mut data: Vec<Val> = Vec::with_capacity(n as usize);
          for i in 0..n { data.push(self.load(st, &Ty::Int(8), 1, &Val::C(p + i))?); }
          let file = Rc::make_mut(&mut Rc::make_mut(&mut st.files)[f].1);
          let pos = if app { file.len() } else { pos };
          while file.len() < pos + data.len() { file.push(Val::C(0)); }
          for (i, v) in data.into_iter().enumerate() { file[pos + i] = v; }
          Rc::make_mut(&mut st.fds)[fd - 3] = Some((f, pos + n as usize, app));
        }
        Some(a[2].clone())
      },
      X::Open => {
        let mut path = Vec::new();
        let p = self.conc(st, &a[0])?;
        loop {
          let v = self.load(st, &Ty::Int(8), 1, &Val::C(p + path.len() as u64))?;
          let b = self.conc(st, &v)? as u8;
          if b == 0 { break; }
          path.push(b);
        }
        let flags = self.conc(st, &a[1])?;
        let (creat, trunc, append) = (flags & 0o100 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
        let i = match st.files.iter().position(|f| f.0 == path) {
          Some(i) => Some(i),
          None if creat => { Rc::make_mut(&mut st.files).push((path, Rc::new(vec![]))); Some(st.files.len() - 1) },
          None => None,
        };
        match i {
          None => Some(Val::C(0xffff_ffff)),
          Some(i) => {
            if trunc { Rc::make_mut(&mut st.files)[i].1 = Rc::new(vec![]); }
            Rc::make_mut(&mut st.fds).push(Some((i, 0, append)));
            Some(Val::C(st.fds.len() as u64 + 2))
          },
        }
      },
      X::Close => {
        let fd = self.conc(st, &a[0])? as u32 as usize;
        if fd >= 3 && fd - 3 < st.fds.len() { Rc::make_mut(&mut st.fds)[fd - 3] = None; }
        Some(Val::C(0))
      },
      X::Read => {
        let fd = self.conc(st, &a[0])? as u32 as usize;
        let (p, n) = (self.conc(st, &a[1])?, self.conc(st, &a[2])? as usize);
        match if fd >= 3 { st.fds.get(fd - 3).copied().flatten() } else { None } {
          None => Some(Val::C(u64::MAX)),
          Some((f, pos, app)) => {
            let data = st.files[f].1.clone();
            let k = n.min(data.len().saturating_sub(pos));
            for i in 0..k { self.store(st, &Ty::Int(8), 1, &data[pos + i], &Val::C(p + i as u64))?; }
            Rc::make_mut(&mut st.fds)[fd - 3] = Some((f, pos + k, app));
            Some(Val::C(k as u64))
          },
        }
      },
      X::Errno => {
        let at = match st.errno {
          Some(x) => x,
          None => { let x = (st.mem.alloc(4) as u64) << 32; st.errno = Some(x); x },
        };
        let ev = std::mem::replace(&mut st.errval, 2);
        self.store(st, &Ty::Int(32), 4, &Val::C(ev), &Val::C(at))?;
        Some(Val::C(at))
      },
      X::Gettid => Some(Val::C(1)),
      X::ClockGettime => {
        let p = self.conc(st, &a[1])?;
        self.store(st, &Ty::Int(64), 8, &Val::C(1_800_000_000), &Val::C(p))?;
        self.store(st, &Ty::Int(64), 8, &Val::C(0), &Val::C(p + 8))?;
        Some(Val::C(0))
      },
      X::Lseek => {
        let fd = self.conc(st, &a[0])? as u32 as usize;
        let (off, wh) = (self.conc(st, &a[1])? as i64, self.conc(st, &a[2])?);
        match if fd >= 3 { st.fds.get(fd - 3).copied().flatten() } else { None } {
          None => Some(Val::C(u64::MAX)),
          Some((f, pos, app)) => {
            let base = match wh { 0 => 0, 1 => pos as i64, _ => st.files[f].1.len() as i64 };
            let to = base + off;
            if to < 0 { Some(Val::C(u64::MAX)) } else { Rc::make_mut(&mut st.fds)[fd - 3] = Some((f, to as usize, app)); Some(Val::C(to as u64)) }
          },
        }
      },
      X::Statx => {
        let fd = self.conc(st, &a[0])? as u32 as i32;
        let (p, buf) = (self.conc(st, &a[1])?, self.conc(st, &a[4])?);
        let mut path = Vec::new();
        if p == 0 { st.errval = 14; if let Some(at) = st.errno { self.store(st, &Ty::Int(32), 4, &Val::C(14), &Val::C(at))?; } return Ok(Some(Val::C(0xffff_ffff))); }
        loop {
          let v = self.load(st, &Ty::Int(8), 1, &Val::C(p + path.len() as u64))?;
          let b = self.conc(st, &v)? as u8;
          if b == 0 { break; }
          path.push(b);
        }
        let hit = if path.is_empty() { if fd >= 3 { st.fds.get(fd as usize - 3).copied().flatten().map(|(f, _, _)| Some(f)) } else { None } }
        else {
          let mut dir = path.clone();
          if dir.last() != Some(&b'/') { dir.push(b'/'); }
          match st.files.iter().position(|f| f.0 == path) { Some(f) => Some(Some(f)), None => if dir == b"/v/" || st.files.iter().any(|f| f.0.starts_with(&dir)) { Some(None) } else { None } }
        };
        match hit {
          None => Some(Val::C(0xffff_ffff)),
          Some(f) => {
            for i in 0..32u64 { self.store(st, &Ty::Int(64), 8, &Val::C(0), &Val::C(buf + 8 * i))?; }
            let len = f.map_or(4096, |f| st.files[f].1.len() as u64);
            self.store(st, &Ty::Int(32), 4, &Val::C(0x7ff), &Val::C(buf))?;
            self.store(st, &Ty::Int(16), 2, &Val::C(if f.is_some() { 0o100644 } else { 0o040755 }), &Val::C(buf + 28))?;
            self.store(st, &Ty::Int(64), 8, &Val::C(len), &Val::C(buf + 40))?;
            Some(Val::C(0))
          },
        }
      },
      X::SymFile => {
        // path, its length, buffer, its capacity: copies what fits, returns the length (-1: no such file)
        let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
        let mut path = Vec::new();
        for i in 0..n { let v = self.load(st, &Ty::Int(8), 1, &Val::C(p + i))?; path.push(self.conc(st, &v)? as u8); }
        let (b, cap) = (self.conc(st, &a[2])?, self.conc(st, &a[3])? as usize);
        match st.files.iter().find(|f| f.0 == path) {
          None => Some(Val::C(u64::MAX)),
          Some(f) => {
            let data = f.1.clone();
            for i in 0..cap.min(data.len()) { self.store(st, &Ty::Int(8), 1, &data[i], &Val::C(b + i as u64))?; }
            Some(Val::C(data.len() as u64))
          },
        }
      },
      X::SymU8 => { let e = self.fresh(st, [u64::MAX; 4]); Some(mkval(e)) },
      X::SymChoice => {
        let n = self.conc(st, &a[0])?;
        if n == 0 || n > 256 { self.bug(st, "choice bound"); }
        if n == 1 { // still an input, with one value
          let mut d = [0u64; 4]; d[0] = 1;
          self.fresh(st, d);
          return Ok(Some(Val::C(0)));
        }
        let mut d = [0u64; 4];
        for i in 0..n as usize { d[i >> 6] |= 1 << (i & 63); }
        let e = self.fresh(st, d);
        Some(mkval(ctx().zext(e, w)))
      },
      X::SymConc => { let v = match &a[0] { Val::S(e) => self.conc_e(st, *e)? as u64, Val::C(x) => *x, _ => panic!() }; Some(Val::C(v)) },
      X::SymAssume => {
        let v = self.bool_of(&a[0]);
        match v {
          Ok(false) => { self.st.assumed_out += 1; self.st.steps += st.steps; return Err(Stop::End); },
          Ok(true) => None,
          Err(e) => {
            if let Some(v) = self.norm(st, e) { if v == 1 { return Ok(None); } self.st.assumed_out += 1; return Err(Stop::End); }
            let (t, _) = self.feasible(st, e);
            match t { Some(p) => { self.add(st, e, true, &p); None }, None => { self.st.assumed_out += 1; self.st.steps += st.steps; return Err(Stop::End); } }
          },
        }
      },
      X::SymCheck => {
        let msg = { let p = self.conc(st, &a[1])?; let n = self.conc(st, &a[2])?; String::from_utf8_lossy(&self.read_bytes(st, p, n)).to_string() };
        match self.bool_of(&a[0]) {
          Ok(true) => { self.st.checks_concrete += 1; },
          Ok(false) => return Err(self.error(st, "assert", msg)),
          Err(e) => {
            // the verdict on a symbolic assertion is always Z3's
            self.st.checks_symbolic += 1;
            let (cs, sup) = self.slice(st, ctx().sup(e));
            let doms: Vec<(u32, Dom)> = (0..st.dom.len() as u32).filter(|v| sup >> v & 1 == 1).map(|v| (v, st.dom[v as usize])).collect();
            let mut q: Vec<(E, bool)> = cs.iter().map(|e| (*e, true)).collect();
            q.push((e, false));
            if let Some(p) = self.z3.check(&q, &doms) {
              let mut mdl = st.model.clone();
              for (v, x) in p { mdl[v as usize] = x; }
              self.violation("assert", &msg, mdl);
              // continue on the side where it holds, if any
              let (t, _) = self.feasible(st, e);
              match t { Some(p) => self.add(st, e, true, &p), None => { self.st.paths += 1; self.finish(st); return Err(Stop::End); } }
            }
          },
        }
        None
      },
      X::SymReach => {
        let p = self.conc(st, &a[0])?; let n = self.conc(st, &a[1])?;
        let s: Rc<str> = String::from_utf8_lossy(&self.read_bytes(st, p, n)).to_string().into();
        if !st.labels.contains(&s) { st.labels.push(s); }
        None
      },
      X::SymEmit => {
        let t = self.conc(st, &a[0])? as u32;
        match &a[1] { Val::C(v) => st.emits.push(Emit::V(t, *v as u128)), Val::S(e) => st.emits.push(Emit::E(t, *e)), _ => panic!() }
        None
      },
      X::SymEmitBytes => {
        let p = self.conc(st, &a[0])?; let n = self.conc(st, &a[1])?;
        st.emits.push(Emit::V(1000, n as u128));
        for i in 0..n { let b = self.load(st, &Ty::Int(8), 1, &Val::C(p + i))?; match b { Val::C(v) => st.emits.push(Emit::V(8, v as u128)), Val::S(e) => st.emits.push(Emit::E(8, e)), _ => panic!() } }
        None
      },
      X::SymPanicOk => { st.panic_ok = self.conc(st, &a[0])? != 0; None },
      X::SymParam => { let i = self.conc(st, &a[0])?; return Ok(Some(Val::C(self.params.get(i as usize).copied().unwrap_or(0) as _))); },
      X::SymHashSeed => return Ok(Some(Val::C(st.hash_seed as _))),
      X::SymSetHashSeed => { st.hash_seed = self.conc(st, &a[0])? as u64; return Ok(None); },
      X::SymEnd => return Err(self.end_ok(st, None)),
      X::PanicFmt => {
        // the caller location is the last pointer argument that leads to a Location
        let mut loc = String::from("?");
        for v in a.iter().rev() {
          if let Val::C(p) = v {
            let f = self.read_u64(st, *p);
            let n = self.read_u64(st, p.wrapping_add(8));
            if n > 3 && n < 400 {
              let s = self.read_bytes(st, f, n);
              let s = String::from_utf8_lossy(&s).trim_end_matches('\0').to_string();
              if s.contains(".rs") { let l = self.read_u64(st, p.wrapping_add(16)); loc = format!("{}:{}", s, l & 0xffff_ffff); break; }
            }
          }
        }
        if st.panic_ok { return Err(self.end_ok(st, Some(loc))); }
        if std::env::var("LLSYM_DEBUG").is_ok() { eprintln!("panic at {} stack {}", loc, self.stack(st)); }
        return Err(self.error(st, "panic", loc));
      },
      X::Trap | X::Abort => {
        if st.panic_ok { return Err(self.end_ok(st, Some("abort".into()))); }
        let s = self.stack(st);
        return Err(self.error(st, "panic", format!("abort in {}", s)));
      },
      X::Unsupported => { let n = self.m.fns[id as usize].name.clone(); self.bug(st, &format!("unsupported external function {}", n)) },
    })
  }
  fn bool_of(&self, v: &Val) -> Result<bool, E> {
    match v {
      Val::C(x) => Ok(*x != 0),
      Val::S(e) => { let c = ctx(); let w = c.w(*e); let z = c.konst(w, 0); let q = c.eq(*e, z); let n = c.not1(q); match c.is_const(n) { Some(v) => Ok(v == 1), None => Err(n) } },
      _ => panic!("bool_of"),
    }
  }
  fn map1(&self, e: E, w: u32, f: &dyn Fn(u128) -> u128) -> Option<E> {
    let sup = ctx().sup(e);
    if sup.count_ones() != 1 { return None; }
    let t = ctx().nodes[e as usize].tab.clone()?;
    let mut o = [0u64; 256];
    for i in 0..256 { o[i] = f(t[i] as u128) as u64; }
    Some(ctx().lut(sup.trailing_zeros(), w, o))
  }
  fn fresh(&mut self, st: &mut State, d: Dom) -> E {
    let v = st.dom.len() as u32;
    if v >= 128 { self.bug(st, "more than 128 symbolic inputs"); }
    st.dom.push(d);
    st.model.push(dom_first(&d));
    if dom_count(&d) == 1 { st.single |= 1u128 << v; }
    ctx().var(v)
  }
  fn alloc(&mut self, st: &mut State, n: u64) -> R<Option<Val>> {
    if n > 1 << 28 { return Err(self.error(st, "memory", "allocation over 256 MB".into())); }
    Ok(Some(Val::C((st.mem.alloc(n) as u64) << 32)))
  }
}

fn goto(fr: &mut Frame, t: u32) {
  let func: *const Func = Rc::as_ptr(&fr.func);
  let b = unsafe { let f: &Func = &*func; &f.blocks[t as usize] };
  if !b.phis.is_empty() {
    let from = fr.cur;
    if let Some((_, mv)) = b.phis.iter().find(|p| p.0 == from) {
      if mv.len() == 1 { let v = Exec::get(fr, &mv[0].1); fr.regs[mv[0].0 as usize] = v; }
      else {
        let vals: Vec<Val> = mv.iter().map(|m| Exec::get(fr, &m.1)).collect();
        for (m, v) in mv.iter().zip(vals) { fr.regs[m.0 as usize] = v; }
      }
    } else { panic!("phi without predecessor in {}", fr.func.name) }
  }
  fr.cur = t;
  fr.pc = b.start;
}
fn insert(base: Val, path: &[u32], v: Val) -> Val {
  match base {
    Val::A(mut x) => {
      let y = Rc::make_mut(&mut x);
      let k = path[0] as usize;
      if path.len() == 1 { y[k] = v; } else { let o = std::mem::replace(&mut y[k], Val::C(0)); y[k] = insert(o, &path[1..], v); }
      Val::A(x)
    },
    _ => panic!("insert"),
  }
}

fn intercept(n: &str) -> Option<X> {
  if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") { return Some(X::PanicFmt); }
  if n.contains("9panicking14panic_nounwind") || n.contains("7process5abort") || n.contains("18handle_alloc_error") { return Some(X::Abort); }
  None
}

fn external(n: &str) -> X {
  match n {
    "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::PosixMemalign,
    "bcmp" | "memcmp" => X::Bcmp, "strlen" => X::Strlen, "memchr" => X::Memchr,
    "memcpy" => X::Memcpy, "memmove" => X::Memmove, "memset" => X::Memset,
    "abort" => X::Abort, "getenv" => X::Getenv, "write" => X::Write, "open64" | "open" => X::Open, "close" => X::Close, "read" => X::Read, "__errno_location" => X::Errno, "gettid" => X::Gettid, "clock_gettime" => X::ClockGettime, "lseek64" | "lseek" => X::Lseek, "statx" => X::Statx, "__sym_file" => X::SymFile,
    "__cxa_thread_atexit_impl" | "pthread_self" | "sigaction" | "signal" | "sched_yield" => X::Nop0,
    "__sym_u8" => X::SymU8, "__sym_choice" => X::SymChoice, "__sym_conc" => X::SymConc, "__sym_assume" => X::SymAssume, "__sym_check" => X::SymCheck,
    "__sym_reach" => X::SymReach, "__sym_emit" => X::SymEmit, "__sym_emit_bytes" => X::SymEmitBytes, "__sym_panic_ok" => X::SymPanicOk, "__sym_end" => X::SymEnd, "__sym_param" => X::SymParam,
    "__sym_hash_seed" => X::SymHashSeed, "__sym_set_hash_seed" => X::SymSetHashSeed,
    _ => {
      if let Some(r) = n.strip_prefix("llvm.") {
        let tab: &[(&str, X)] = &[
          ("memcpy", X::Memcpy), ("memmove", X::Memmove), ("memset", X::Memset), ("umax", X::UMax), ("umin", X::UMin), ("smax", X::SMax), ("smin", X::SMin),
          ("ctpop", X::Ctpop), ("ctlz", X::Ctlz), ("cttz", X::Cttz), ("bswap", X::Bswap), ("bitreverse", X::Bitrev), ("fshl", X::Fshl), ("fshr", X::Fshr),
          ("uadd.with", X::UaddO), ("usub.with", X::UsubO), ("umul.with", X::UmulO), ("sadd.with", X::SaddO), ("ssub.with", X::SsubO), ("smul.with", X::SmulO),
          ("uadd.sat", X::UaddS), ("usub.sat", X::UsubS), ("sadd.sat", X::SaddS), ("ssub.sat", X::SsubS), ("abs", X::Abs), ("ucmp", X::Ucmp), ("scmp", X::Scmp),
          ("threadlocal.address", X::Ident), ("expect", X::Ident), ("trap", X::Trap), ("ubsantrap", X::Trap), ("ptrmask", X::PtrMask), ("launder", X::Ident), ("strip.invariant", X::Ident),
          ("log2", X::FloatFn), ("log10", X::FloatFn), ("log", X::FloatFn), ("fabs", X::FloatFn), ("floor", X::FloatFn), ("ceil", X::FloatFn), ("sqrt", X::FloatFn), ("minnum", X::FloatFn), ("maxnum", X::FloatFn), ("copysign", X::FloatFn), ("fptoui.sat", X::FloatFn), ("fptosi.sat", X::FloatFn), ("exp2", X::FloatFn), ("exp.", X::FloatFn), ("trunc", X::FloatFn), ("round", X::FloatFn), ("rint", X::FloatFn), ("nearbyint", X::FloatFn), ("minimum", X::FloatFn), ("maximum", X::FloatFn), ("sin.", X::FloatFn), ("cos.", X::FloatFn), ("pow", X::FloatFn), ("fma", X::FloatFn), ("is.constant", X::Nop0),
          ("experimental.", X::Hint), ("invariant", X::Nop0), ("sideeffect", X::Hint), ("pseudoprobe", X::Hint),
        ];
        for (k, x) in tab { if r.starts_with(k) { return *x; } }
      }
      X::Unsupported
    },
  }
}
