use crate::common::*;
use crate::*;
use llamapun::{data, parallel_data};
use std::collections::HashMap;

const NAME: &[char] = &['.', 'h', 't', 'm', 'l', 'x', '5', 'L', 'é', ' '];

struct Item { path: String, name: String, depth: usize, dir: bool, readable: bool, hidden: bool }

/// params: p0 entries, p1 symbolic characters of a name (behind a fixed stem), p2 1: only parallel walk, 0: both;
/// p3 1: with directories, p4 nested directories above, p5 1: with errors of the walk, p6 many documents before
/// A tree of files and directories with symbolic names; the walks must yield exactly the selected, readable files.
pub fn walk() {
  let (k, n, dirs) = (param(0), param(1), param(3) == 1);
  let mut serial = data::Corpus::new(root() + "/c");
  let mut par = parallel_data::Corpus::new(root() + "/c");
  // a document to serve for every file
  let (d, mut r) = Dom::new("html");
  let mut b = d.el(&mut r, "body");
  d.el(&mut b, "Q");
  // the HTML parser takes names in small letters
  let (h, mut r) = Dom::new("html");
  let mut b = h.el(&mut r, "body");
  h.el(&mut b, "q");
  as_html(&d.doc, &h.doc);
  // was this document read by the parser its name asks for?
  fn right(path: &str, root: RoNode) -> bool {
    let n = path.len();
    let xml = n >= 6 && &path.as_bytes()[n - 6..] == b".xhtml";
    let name = root.get_first_child().and_then(|b| b.get_first_child()).map(|q| q.get_name());
    name == Some(if xml { "Q" } else { "q" }.to_string())
  }
  let ext: Option<String> = match pick(3) { 0 => None, 1 => Some(".html5".to_string()), _ => Some("ml".to_string()) };
  let mut items: Vec<Item> = Vec::new();
  let base = root() + "/c";
  #[cfg(not(target_arch = "riscv64"))]
  std::fs::create_dir_all(&base).unwrap();
  let mut cur = (base.clone(), 0usize, false); // directory being filled: path, its depth, hidden
  // p4: a chain of directories before the entries
  for i in 0..param(4) {
    let name = format!("d{}", i);
    let path = format!("{}/{}", cur.0, name);
    #[cfg(not(target_arch = "riscv64"))]
    std::fs::create_dir_all(&path).unwrap();
    #[cfg(target_arch = "riscv64")]
    publish_empty(&path);
    items.push(Item { path: path.clone(), name, depth: i + 1, dir: true, readable: false, hidden: false });
    cur = (path, i + 1, false);
  }
  // p6: many documents before
  for i in 0..param(6) {
    let name = format!("m{}.html", i);
    let path = format!("{}/{}", cur.0, name);
    publish_at(&d.doc, &path);
    items.push(Item { path, name, depth: cur.1 + 1, dir: false, readable: true, hidden: false });
    if i > 20 { reach("many documents") }
  }
  for i in 0..k {
    // entries stay in the current directory or go back to the root directory
    if cur.1 > 0 && flag() { cur = (base.clone(), 0, false); }
    let dot = flag();
    let mut name = format!("{}{}", if dot { "." } else { "f" }, i);
    // suffixes: a common one or any characters
    match pick(4) {
      0 => name.push_str(".html"),
      1 => name.push_str(".xhtml"),
      2 => name.push_str(".html5"),
      _ => for _ in 0..n { name.push(ch(NAME)) },
    }
    let dir = dirs && flag();
    let path = format!("{}/{}", cur.0, name);
    // missing (unreadable), a document, or empty
    let content = if dir { 0 } else { pick(3) };
    let readable = content == 1;
    if content == 2 { reach("empty file"); publish_empty(&path) }
    let hidden = cur.2 || dot;
    if readable { publish_at(&d.doc, &path) }
    #[cfg(not(target_arch = "riscv64"))]
    if dir { std::fs::create_dir_all(&path).unwrap() }
    // a directory opens like an empty file
    #[cfg(target_arch = "riscv64")]
    if dir { publish_empty(&path) }
    items.push(Item { path: path.clone(), name, depth: cur.1 + 1, dir, readable, hidden });
    if dir { cur = (path, cur.1 + 1, hidden); }
  }
  vfs::set_tree(&base, items.iter().map(|x| vfs::Entry { path: x.path.clone(), name: x.name.clone(), depth: x.depth, dir: x.dir }).collect());
  // p5: some places of the walk fail (a directory which may not be read)
  if param(5) == 1 {
    let mut bad = Vec::new();
    if flag() { bad.push(base.clone()) }
    for x in &items { if flag() { bad.push(x.path.clone()) } }
    if bad.len() > 0 { reach("walk with an error") }
    vfs::set_errors(bad);
  }
  serial.extension = ext.clone();
  par.extension = ext.clone();
  let ends = |n: &str, e: &str| n.len() >= e.len() && &n.as_bytes()[n.len() - e.len()..] == e.as_bytes();
  let want: Vec<bool> = items.iter().map(|x| x.readable && match &ext { Some(e) => ends(&x.name, e), None => ends(&x.name, ".html") || ends(&x.name, ".xhtml") }).collect();
  let at = |p: &str| items.iter().position(|x| x.path.len() == p.len() && x.path == p);
  if param(2) == 0 {
    let mut seen = vec![0; items.len()];
    for doc in serial.iter() {
      match at(&doc.path) { Some(i) => seen[i] += 1, None => check(false, "only paths of the tree are visited") }
      check(doc.dom.get_root_readonly().map(|r| r.get_name()) == Some("html".to_string()), "the document is the file's");
      check(doc.dom.get_root_readonly().map_or(false, |r| right(&doc.path, r)), "a file is read as XML exactly if it is named .xhtml, else as HTML");
    }
    let mut selected = 0;
    for i in 0..items.len() {
      check(seen[i] == want[i] as usize, "the serial walk yields each selected and readable file once and no other");
      selected += seen[i];
      if seen[i] > 0 && items[i].depth > 4 { reach("document deep in the tree") }
    }
    if selected > 1 { reach("several documents") }
    if items.iter().any(|x| !x.readable) && selected > 0 { reach("unreadable entry next to a document") }
  }
  let seen = par.catalog_with_parallel_walk(|doc| { let mut m = HashMap::new(); m.insert(doc.path.clone(), if doc.dom.get_root_readonly().map_or(false, |r| right(&doc.path, r)) { 1 } else { 100 }); m });
  let mut total = 0;
  for i in 0..items.len() {
    let w = want[i] && !items[i].hidden;
    if want[i] && items[i].hidden { reach("hidden file") }
    check(seen.get(&items[i].path).copied().unwrap_or(0) == w as u64, "the parallel walk yields each selected, readable file which is not hidden once, as XML exactly if it is named .xhtml");
    total += w as usize;
  }
  check(seen.len() == total, "the parallel walk yields no other file");
  let (one, two) = par.catalogs_with_parallel_walk(|doc| {
    let (mut m, mut n) = (HashMap::new(), HashMap::new());
    m.insert(doc.path.clone(), 1);
    n.insert(doc.path.clone(), 2);
    (m, n)
  });
  check(one.len() == seen.len() && two.len() == seen.len() && seen.iter().all(|(k, v)| one.get(k) == Some(v) && two.get(k) == Some(&(2 * v))), "the walk for two catalogs visits the same files");
  emit(1, total as u64);
}

/// params: p0 documents, p1 decisions of the schedule, p2 1: the pair of catalogs, p3 keys, p4 further documents
/// Every closure result and every schedule: the catalog is the sum.
pub fn catalog() {
  let (k, n, pair, keys) = (param(0), param(1), param(2) == 1, param(3));
  let par = parallel_data::Corpus::new(root() + "/c");
  let (d, mut r) = Dom::new("html");
  d.el(&mut r, "body");
  let mut files = Vec::new();
  for i in 0..k + param(4) {
    let p = format!("{}/c/{}.html", root(), i);
    publish_at(&d.doc, &p);
    files.push(p);
  }
  vfs::set_files(files.clone());
  // what the closure returns for document i: up to 2 entries of symbolic keys and values, for each catalog
  let ncat = if pair { 2 } else { 1 };
  let mut rep: Vec<Vec<Vec<(usize, u64)>>> = Vec::new();
  for _ in 0..k {
    let mut per = Vec::new();
    for _ in 0..ncat {
      let mut m = Vec::new();
      for key in 0..keys { if flag() { { let v = u8() as u64; m.push((key, v | v << 40)) } } }
      per.push(m);
    }
    rep.push(per);
  }
  vfs::set_schedule((0..n).map(|_| pick(3)).collect());
  let name = |k: usize| ["a", "b", "document_count"][k].to_string();
  let get = |path: &str, c: usize| -> HashMap<String, u64> {
    let i = files.iter().position(|f| f == path).unwrap();
    if i >= k { return [("a".to_string(), 1), (format!("m{}", (i - k) % 7 + c), (i - k) as u64)].into_iter().collect() }
    rep[i][c].iter().map(|(k, v)| (name(*k), *v)).collect()
  };
  let out: Vec<HashMap<String, u64>> = if pair {
    let (a, b) = par.catalogs_with_parallel_walk(|doc| (get(&doc.path, 0), get(&doc.path, 1)));
    vec![a, b]
  } else {
    vec![par.catalog_with_parallel_walk(|doc| get(&doc.path, 0))]
  };
  for (c, m) in out.iter().enumerate() {
    let mut size = 0;
    for r in 0..param(4).min(7) {
      size += 1;
      let sum: usize = (0..param(4)).filter(|i| i % 7 == r).sum();
      check(m.get(&format!("m{}", r + c)).copied() == Some(sum as u64), "each count is the sum of the counts of many documents");
      if param(4) > 7 { reach("many documents") }
    }
    for key in 0..keys {
      let mut vs: Vec<u64> = rep.iter().flat_map(|r| r[c].iter().filter(|e| e.0 == key).map(|e| e.1)).collect();
      if vs.len() > 1 { reach("key reported by several documents") }
      if key == 0 && param(4) > 0 { vs.push(param(4) as u64) }
      if vs.is_empty() { check(!m.contains_key(&name(key)), "no entry without a report") } else {
        size += 1;
        check(m.get(&name(key)).copied() == Some(vs.iter().sum()), "each count is the sum of the documents' counts");
      }
    }
    check(m.len() == size, "no other entry");
    emit(1, size as u64);
  }
}
