// symbolic build: every harness is an exported function
#![allow(dead_code, unused_imports)]
pub(crate) use symrt::*;
include!("mods.rs");
#[macro_use]
#[path = "entries.rs"]
mod entries;
macro_rules! export {
  ($($name:ident => $m:ident :: $f:ident,)*) => { $(#[no_mangle] pub extern "C" fn $name() { $m::$f(); symrt::end() })* };
}
harness_list!(export);
