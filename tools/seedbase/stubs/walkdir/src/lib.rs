//! Model of walkdir: walks the virtual tree in its order.
use std::ffi::OsStr;
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("walk error") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone)]
pub struct DirEntry { path: PathBuf, name: String, depth: usize, dir: bool }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FileType(bool);
impl FileType { pub fn is_dir(&self) -> bool { self.0 } pub fn is_file(&self) -> bool { !self.0 } pub fn is_symlink(&self) -> bool { false } }
impl DirEntry {
  pub fn path(&self) -> &Path { &self.path }
  pub fn file_name(&self) -> &OsStr { OsStr::new(&self.name) }
  pub fn file_type(&self) -> FileType { FileType(self.dir) }
  pub fn depth(&self) -> usize { self.depth }
  pub fn path_is_symlink(&self) -> bool { false }
  pub fn into_path(self) -> PathBuf { self.path }
}
pub struct WalkDir { root: PathBuf, min: usize, max: usize }
impl WalkDir {
  pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkDir { root: p.as_ref().to_path_buf(), min: 0, max: usize::MAX } }
  pub fn min_depth(mut self, d: usize) -> Self { self.min = d; self }
  pub fn max_depth(mut self, d: usize) -> Self { self.max = d; self }
  pub fn follow_links(self, _y: bool) -> Self { self }
  pub fn follow_root_links(self, _y: bool) -> Self { self }
  pub fn same_file_system(self, _y: bool) -> Self { self }
  pub fn max_open(self, _n: usize) -> Self { self }
  pub fn sort_by_file_name(self) -> Self { self }
  pub fn sort_by<F: FnMut(&DirEntry, &DirEntry) -> std::cmp::Ordering + Send + Sync + 'static>(self, _cmp: F) -> Self { self }
}
#[derive(Debug)]
pub struct IntoIter { v: Vec<DirEntry>, at: usize, error: bool, min: usize, max: usize }
impl Iterator for IntoIter {
  type Item = Result<DirEntry>;
  fn next(&mut self) -> Option<Self::Item> {
    if self.error { self.error = false; return Some(Err(Error(()))); }
    while self.at < self.v.len() {
      let e = self.v[self.at].clone();
      self.at += 1;
      self.error = vfs::error_after(e.path.to_str().unwrap_or(""));
      if e.depth >= self.min && e.depth <= self.max { return Some(Ok(e)); }
    }
    None
  }
}
impl IntoIter {
  fn skip_below(&mut self, depth: usize) { while self.at < self.v.len() && self.v[self.at].depth > depth { self.at += 1; } }
  pub fn skip_current_dir(&mut self) {
    if self.at > 0 { let d = self.v[self.at - 1].depth; if self.v[self.at - 1].dir { self.skip_below(d) } else if d > 0 { self.skip_below(d - 1) } }
  }
  pub fn filter_entry<P: FnMut(&DirEntry) -> bool>(self, predicate: P) -> FilterEntry<Self, P> { FilterEntry { it: self, predicate } }
}
pub struct FilterEntry<I, P> { it: I, predicate: P }
impl<P: FnMut(&DirEntry) -> bool> Iterator for FilterEntry<IntoIter, P> {
  type Item = Result<DirEntry>;
  fn next(&mut self) -> Option<Self::Item> {
    loop {
      match self.it.next() {
        None => return None,
        Some(Ok(e)) => { if (self.predicate)(&e) { return Some(Ok(e)); } if e.dir { self.it.skip_below(e.depth) } },
        Some(Err(e)) => return Some(Err(e)),
      }
    }
  }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry>;
  type IntoIter = IntoIter;
  fn into_iter(self) -> IntoIter {
    let v = vfs::walk(self.root.to_str().unwrap_or("")).into_iter().map(|e| DirEntry { path: PathBuf::from(e.path), name: e.name, depth: e.depth, dir: e.dir }).collect();
    IntoIter { v, at: 0, error: false, min: self.min, max: self.max }
  }
}
