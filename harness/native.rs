// native build: replay one input through one harness, against the real dependencies where they exist
#![allow(dead_code, unused_imports, static_mut_refs)]
pub(crate) use symrt::*;
include!("mods.rs");
#[macro_use]
#[path = "entries.rs"]
mod entries;
macro_rules! dispatch {
  ($($name:ident => $m:ident :: $f:ident,)*) => {
    fn run(n: &str) { match n { $(stringify!($name) => $m::$f(),)* _ => { eprintln!("no harness {n}"); std::process::exit(2) } } }
  };
}
harness_list!(dispatch);
fn main() {
  let a: Vec<String> = std::env::args().collect();
  // ENTRY[:p,p] INPUT-FILE SCRATCH-DIR
  let (name, ps) = match a[1].split_once(':') { Some((x, y)) => (x.to_string(), y.to_string()), None => (a[1].clone(), String::new()) };
  unsafe {
    symrt::PARAMS = ps.split(',').filter(|p| !p.is_empty()).map(|p| p.parse().unwrap()).collect();
    symrt::INPUT = std::fs::read(&a[2]).unwrap();
    symrt::ROOT = a[3].clone();
  }
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    println!("{} {}", if symrt::panic_is_ok() { "E panic\nPANIC-OK" } else { "PANIC" }, loc);
    eprintln!("{info}");
  }));
  // a large stack, so that runaway recursion is told apart from deep recursion
  let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(&name)).unwrap();
  match t.join() {
    Ok(()) => { println!("END"); std::process::exit(0) }
    Err(_) => std::process::exit(if symrt::panic_is_ok() { 0 } else { 101 }),
  }
}
