//! Model of jwalk 0.4: the directory itself, then everything in it; hidden files and directories are
//! skipped when asked to.
use std::ffi::OsString;
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("walk error") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FileType(bool);
impl FileType { pub fn is_dir(&self) -> bool { self.0 } pub fn is_file(&self) -> bool { !self.0 } pub fn is_symlink(&self) -> bool { false } }
#[derive(Debug)]
pub struct DirEntry { pub file_name: OsString, pub depth: usize, pub file_type: Result<FileType>, path: PathBuf }
impl DirEntry {
  pub fn path(&self) -> PathBuf { self.path.clone() }
  pub fn parent_path(&self) -> &Path { self.path.parent().unwrap_or(&self.path) }
  pub fn depth(&self) -> usize { self.depth }
}
pub struct WalkDir { root: PathBuf, hidden: bool, min: usize, max: usize }
pub type WalkDirGeneric = WalkDir;
impl WalkDir {
  pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkDir { root: p.as_ref().to_path_buf(), hidden: true, min: 0, max: usize::MAX } }
  pub fn num_threads(self, _n: usize) -> Self { self }
  pub fn skip_hidden(mut self, b: bool) -> Self { self.hidden = b; self }
  pub fn sort(self, _b: bool) -> Self { self }
  pub fn preload_metadata(self, _b: bool) -> Self { self }
  pub fn follow_links(self, _b: bool) -> Self { self }
  pub fn min_depth(mut self, d: usize) -> Self { self.min = d; self }
  pub fn max_depth(mut self, d: usize) -> Self { self.max = d; self }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry>;
  type IntoIter = std::vec::IntoIter<Result<DirEntry>>;
  fn into_iter(self) -> Self::IntoIter {
    let mut v = Vec::new();
    let mut cut: Option<usize> = None;
    for e in vfs::walk(self.root.to_str().unwrap_or("")) {
      if let Some(d) = cut { if e.depth > d { continue; } cut = None; }
      if self.hidden && e.depth > 0 && e.name.as_bytes().first() == Some(&b'.') { if e.dir { cut = Some(e.depth); } continue; }
      let error = vfs::error_after(&e.path);
      if e.depth < self.min || e.depth > self.max { continue; }
      v.push(Ok(DirEntry { file_name: OsString::from(e.name), depth: e.depth, file_type: Ok(FileType(e.dir)), path: PathBuf::from(e.path) }));
      if error { v.push(Err(Error(()))); }
    }
    v.into_iter()
  }
}
