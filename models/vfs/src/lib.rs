//! Virtual directory tree shared by the walkdir and jwalk models, and the schedule of the rayon model.
#[derive(Clone, Debug)]
pub struct Entry { pub path: String, pub name: String, pub depth: usize, pub dir: bool }
/// paths of entries behind which the walk reports an error (an unreadable directory, a vanished file)
static mut ERRORS: Vec<String> = Vec::new();
pub fn set_errors(v: Vec<String>) { unsafe { ERRORS = v; } }
#[allow(static_mut_refs)]
pub fn error_after(path: &str) -> bool { unsafe { ERRORS.iter().any(|p| p.len() == path.len() && p == path) } }
static mut ROOT: String = String::new();
static mut TREE: Vec<Entry> = Vec::new();
static mut ORDER: Vec<usize> = Vec::new();
/// Replace the tree by these file paths (in walk order), all of them next to each other.
pub fn set_files(v: Vec<String>) {
  let t = v.into_iter().map(|p| { let name = p.rsplit('/').next().unwrap_or("").to_string(); Entry { path: p, name, depth: 1, dir: false } }).collect();
  unsafe { ROOT = String::new(); TREE = t; ORDER = Vec::new(); }
}
/// Replace the tree below `root` by these entries, in walk order (a directory in front of its contents).
pub fn set_tree(root: &str, v: Vec<Entry>) { unsafe { ROOT = root.to_string(); TREE = v; ORDER = Vec::new(); } }
/// the directory itself and everything in it, in walk order
#[allow(static_mut_refs)]
pub fn walk(dir: &str) -> Vec<Entry> {
  let base = dir.trim_end_matches('/');
  let name = base.rsplit('/').next().unwrap_or("").to_string();
  let mut out = vec![Entry { path: dir.to_string(), name, depth: 0, dir: true }];
  unsafe {
    let mut pre = base.to_string();
    pre.push('/');
    let up = if base.len() > ROOT.len() && !ROOT.is_empty() { base[ROOT.len()..].matches('/').count() } else { 0 };
    for e in TREE.iter() {
      if (!ROOT.is_empty() && base == ROOT) || e.path.starts_with(&pre) { let mut e = e.clone(); e.depth -= up; out.push(e); }
    }
  }
  out
}
/// The schedule of the rayon model: a list of decisions, consumed in order.
pub fn set_schedule(v: Vec<usize>) { unsafe { ORDER = v; } }
/// next scheduling decision below n (0 when the schedule is used up)
#[allow(static_mut_refs)]
pub fn decide(n: usize) -> usize {
  unsafe { if n <= 1 || ORDER.is_empty() { 0 } else { let k = ORDER.remove(0); if k < n { k } else { n - 1 } } }
}
