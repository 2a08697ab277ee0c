#![allow(dead_code, static_mut_refs)]
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

extern "C" {
  fn fork() -> i32;
  fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
  fn _exit(c: i32) -> !;
  fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn bytes(v: &[u8]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

/// what a worker reports, one item per line
fn dump(x: &Exec, complete: bool, f: &mut dyn Write) {
  let s = &x.st;
  let _ = writeln!(f, "N paths {}\nN assumed_out {}\nN forks {}\nN steps {}\nN checks_concrete {}\nN checks_symbolic {}\nN unary_decisions {}\nN audits {}\nN multi_decisions {}\nN cache_hits {}\nN multi_paths {}\nN z3_queries {}\nN z3_sat {}\nN z3_unsat {}\nN z3_us {}\nN incomplete {}",
    s.paths, s.assumed_out, s.forks, s.steps, s.checks_concrete, s.checks_symbolic, s.unary_decisions, s.audits, s.multi_decisions, s.cache_hits, s.multi_paths, x.z3.queries, x.z3.sat, x.z3.unsat, x.z3.nanos / 1000, (!complete) as u32);
  let _ = writeln!(f, "V {}", s.valuations);
  for (l, n) in &s.labels { let _ = writeln!(f, "L {} {}", n, l); }
  for v in &x.viol { let _ = writeln!(f, "X {}\t{}\t{}\t{}", v.kind, v.msg.replace(['\t', '\n'], " "), v.count, bytes(&v.model)); }
  for (m, t) in &x.samples { let _ = writeln!(f, "S {}\t{}", bytes(m), t.join(" ")); }
  for u in &x.used { let _ = writeln!(f, "F {}", u); }
}

#[derive(Default)]
struct Merged {
  n: BTreeMap<String, u64>,
  v: f64,
  labels: BTreeMap<String, u64>,
  viol: Vec<(String, String, u64, String)>,
  samples: Vec<(String, String)>,
  used: BTreeSet<u32>,
}
impl Merged {
  fn add(&mut self, text: &str) {
    for l in text.lines() {
      let (k, r) = (&l[..1], &l[2..]);
      match k {
        "N" => { let mut p = r.split(' '); let k = p.next().unwrap(); let v = p.next().unwrap_or(""); *self.n.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or_else(|_| panic!("bad line {:?}", l)); },
        "V" => self.v += r.parse::<f64>().unwrap(),
        "L" => { let (n, l) = r.split_once(' ').unwrap(); *self.labels.entry(l.into()).or_insert(0) += n.parse::<u64>().unwrap(); },
        "X" => {
          let p: Vec<&str> = r.split('\t').collect();
          let c: u64 = p[2].parse().unwrap();
          match self.viol.iter_mut().find(|v| v.0 == p[0] && v.1 == p[1]) { Some(v) => v.2 += c, None => self.viol.push((p[0].into(), p[1].into(), c, p[3].into())) }
        },
        "S" => { let (m, t) = r.split_once('\t').unwrap(); self.samples.push((m.into(), t.into())); },
        "F" => { self.used.insert(r.parse().unwrap()); },
        _ => {},
      }
    }
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let mut file = String::new();
  let mut entries = vec![];
  let mut out = String::from("/dev/stdout");
  let mut jobs = 8usize;
  let mut limit = 1e9f64;
  let mut max_steps = 200_000_000u64;
  let mut audit = 256u64;
  let mut seed = 1u64;
  let mut trace = false;
  let mut prof = false;
  let mut i = 1;
  while i < args.len() {
    let nx = || args[i + 1].clone();
    match args[i].as_str() {
      "--entry" => { entries.push(nx()); i += 1; },
      "--out" => { out = nx(); i += 1; },
      "--jobs" => { jobs = nx().parse().unwrap(); i += 1; },
      "--limit" => { limit = nx().parse().unwrap(); i += 1; },
      "--max-steps" => { max_steps = nx().parse().unwrap(); i += 1; },
      "--audit" => { audit = nx().parse().unwrap(); i += 1; },
      "--seed" => { seed = nx().parse().unwrap(); i += 1; },
      "--trace" => trace = true,
      "--prof" => prof = true,
      f => file = f.to_string(),
    }
    i += 1;
  }
  let t0 = Instant::now();
  let text = std::fs::read_to_string(&file).expect("read module");
  let module = ir::Module::parse(&text);
  drop(text);
  let parse_s = t0.elapsed().as_secs_f64();
  let mut x = Exec::new(module);
  x.max_steps = max_steps;
  x.audit_every = audit;
  x.rng = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
  x.trace_fn = trace;
  if prof { x.prof = Some(Default::default()); }
  let mut outf = std::fs::File::create(&out).expect("out file");
  for spec in &entries {
    // "name:1,2" runs the entry with parameters 1 and 2
    let (e, ps) = match spec.split_once(':') { Some((a, b)) => (a, b), None => (spec.as_str(), "") };
    let e = &e.to_string();
    x.params = ps.split(',').filter(|p| !p.is_empty()).map(|p| p.parse().expect("parameter")).collect();
    let t1 = Instant::now();
    x.st = Stats::default();
    x.viol.clear();
    x.samples.clear();
    x.nsamples = 0;
    x.pending.clear();
    let (q0, s0, u0, n0) = (x.z3.queries, x.z3.sat, x.z3.unsat, x.z3.nanos);
    let _ = (q0, s0, u0, n0);
    x.z3.queries = 0; x.z3.sat = 0; x.z3.unsat = 0; x.z3.nanos = 0;
    let st = match x.initial(e) { Some(s) => s, None => { let _ = writeln!(outf, "{{\"entry\":{},\"missing\":true}}", esc(spec)); continue; } };
    let mut complete = true;
    let mut merged = Merged::default();
    // phase 1: breadth-first until there is enough to share
    let want = if jobs > 1 { 96 * jobs } else { 0 };
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(st);
    x.yield_mode = jobs > 1;
    while let Some(mut s) = queue.pop_front() {
      if jobs > 1 && queue.len() >= want { queue.push_back(s); break; }
      if t1.elapsed().as_secs_f64() > limit { complete = false; break; }
      let r = x.run(&mut s);
      if let Stop::Yield = r { queue.push_back(s); }
      if jobs == 1 { while let Some(p) = x.pending.pop() { queue.push_front(p); } }
      else { for p in x.pending.drain(..) { queue.push_back(p); } }
    }
    let mut buf = vec![];
    dump(&x, complete, &mut buf);
    merged.add(std::str::from_utf8(&buf).unwrap());
    if !queue.is_empty() {
      let mut states: Vec<Option<State>> = queue.into_iter().map(Some).collect();
      // shuffle so that neighbouring (similarly expensive) states go to different workers
      let n = states.len();
      let mut r = seed | 1;
      for k in (1..n).rev() { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); states.swap(k, ((r >> 33) as usize) % (k + 1)); }
      let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
      let mut kids = vec![];
      let pid0 = std::process::id();
      for w in 0..jobs.min(n) {
        let path = format!("{}/llsym.{}.{}", std::env::temp_dir().display(), pid0, w);
        let pid = unsafe { fork() };
        if pid == 0 {
          x.yield_mode = false;
          x.st = Stats::default();
          x.viol.clear();
          x.samples.clear();
          x.nsamples = 0;
          x.used.clear();
          x.z3 = z3::Z3::new();
          x.rng = x.rng.wrapping_add(w as u64 * 7919) | 1;
          let mut complete = true;
          'work: loop {
            let k = unsafe { (*shared).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
            if k >= states.len() { break; }
            x.pending.push(states[k].take().unwrap());
            while let Some(mut s) = x.pending.pop() {
              if t1.elapsed().as_secs_f64() > limit { complete = false; break 'work; }
              x.run(&mut s);
            }
          }
          let mut f = std::io::BufWriter::new(std::fs::File::create(&path).unwrap());
          // functions already lowered in the parent
          dump(&x, complete, &mut f);
          let _ = f.flush();
          drop(f);
          unsafe { _exit(0) }
        }
        kids.push((pid, path));
      }
      for (pid, path) in kids {
        let mut stt = 0;
        unsafe { waitpid(pid, &mut stt, 0); }
        if stt != 0 { eprintln!("llsym: worker failed with status {:x} in {}", stt, e); std::process::exit(3); }
        let t = std::fs::read_to_string(&path).expect("worker output");
        let _ = std::fs::remove_file(&path);
        merged.add(&t);
      }
    }
    if let Some(p) = &x.prof {
      let mut v: Vec<_> = p.iter().collect();
      v.sort_by_key(|k| std::cmp::Reverse(*k.1));
      for (id, n) in v.iter().take(40) { eprintln!("{:>9} {}", n, x.m.fns[**id as usize].name); }
    }
    let names: Vec<String> = merged.used.iter().filter(|u| matches!(x.m.fns[**u as usize].body, ir::FnBody::Lines(..))).map(|u| x.m.fns[*u as usize].name.to_string()).collect();
    let repo: Vec<String> = names.iter().filter(|n| n.contains("8llamapun")).cloned().collect();
    let _ = writeln!(outf, "{{\"entry\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},\"counts\":{{{}}},\"valuations\":{},\"labels\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"functions\":{},\"repo_functions\":[{}]}}",
      esc(spec), t1.elapsed().as_secs_f64(), parse_s,
      merged.n.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
      merged.v,
      merged.labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
      merged.viol.iter().map(|(k, m, c, b)| format!("{{\"kind\":{},\"msg\":{},\"count\":{},\"input\":{}}}", esc(k), esc(m), c, b)).collect::<Vec<_>>().join(","),
      merged.samples.iter().map(|(m, t)| format!("{{\"input\":{},\"trace\":{}}}", m, esc(t))).collect::<Vec<_>>().join(","),
      names.len(),
      repo.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","));
    let _ = outf.flush();
  }
}
