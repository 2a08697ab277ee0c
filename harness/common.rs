use crate::*;
use libxml::tree::*;
pub use libxml::readonly::RoNode;

/// A DOM under construction, using only calls that the real libxml crate and its model share.
pub struct Dom { pub doc: Document }
impl Dom {
  pub fn new(root: &str) -> (Dom, Node) {
    let mut doc = Document::new().unwrap();
    let r = Node::new(root, None, &doc).unwrap();
    doc.set_root_element(&r);
    (Dom { doc }, r)
  }
  pub fn el(&self, parent: &mut Node, name: &str) -> Node {
    let mut c = Node::new(name, None, &self.doc).unwrap();
    parent.add_child(&mut c).unwrap();
    c
  }
  pub fn elc(&self, parent: &mut Node, name: &str, class: &str) -> Node {
    let mut c = self.el(parent, name);
    c.set_attribute("class", class).unwrap();
    c
  }
  pub fn comment(&self, parent: &mut Node, text: &str) -> Node {
    let mut c = Node::new_comment(text, &self.doc).unwrap();
    parent.add_child(&mut c).unwrap();
    c
  }
  /// a text written as a CDATA section
  #[cfg(target_arch = "riscv64")]
  pub fn cdata(&self, parent: &mut Node, text: &str) { parent.add_child(&mut Node::model_cdata(text)).unwrap(); }
  #[cfg(not(target_arch = "riscv64"))]
  pub fn cdata(&self, parent: &mut Node, text: &str) {
    use libxml::bindings::*;
    unsafe { xmlAddChild(parent.node_ptr(), xmlNewCDataBlock(self.doc.doc_ptr(), text.as_ptr() as *const xmlChar, text.len() as i32)); }
  }
  pub fn root(&self) -> RoNode { self.doc.get_root_readonly().unwrap() }
}
/// text of the document, also written as a CDATA section (but for the scripts and styles of HTML, which are parsed to such ones)
pub fn is_text(n: RoNode) -> bool {
  n.is_text_node() || n.get_type() == Some(NodeType::CDataSectionNode) && !["script", "style"].contains(&n.get_parent().map_or(String::new(), |p| p.get_name()).as_str())
}
/// put an element into a namespace: 0 none, 1 the default one, 2 one with a prefix
pub fn name_space(e: &mut Node, kind: usize) {
  if kind > 0 {
    let n = libxml::tree::Namespace::new(if kind == 1 { "" } else { "h" }, "http://www.w3.org/1999/xhtml", e).unwrap();
    e.set_namespace(&n).unwrap();
  }
}
/// make a document available to code that loads it by file name; returns the path
pub fn publish(doc: &Document, name: &str) -> String {
  let path = format!("{}/{}", root(), name);
  publish_at(doc, &path);
  path
}
#[cfg(target_arch = "riscv64")]
pub fn publish_at(doc: &Document, path: &str) { doc.model_publish(path) }
#[cfg(not(target_arch = "riscv64"))]
pub fn publish_at(doc: &Document, path: &str) {
  if let Some(p) = std::path::Path::new(path).parent() { std::fs::create_dir_all(p).unwrap(); }
  std::fs::write(path, doc.to_string()).unwrap();
}
/// what the HTML parser makes of the document (natively that parser itself decides)
#[cfg(target_arch = "riscv64")]
pub fn as_html(doc: &Document, html: &Document) { doc.model_as_html(html) }
#[cfg(not(target_arch = "riscv64"))]
pub fn as_html(_: &Document, _: &Document) {}
/// a file without any content
#[cfg(target_arch = "riscv64")]
pub fn publish_empty(path: &str) { Document::new().unwrap().model_publish(path) }
#[cfg(not(target_arch = "riscv64"))]
pub fn publish_empty(path: &str) {
  if let Some(p) = std::path::Path::new(path).parent() { std::fs::create_dir_all(p).unwrap(); }
  std::fs::write(path, "").unwrap();
}
pub fn all_nodes(n: RoNode, out: &mut Vec<RoNode>) {
  out.push(n);
  for c in n.get_child_nodes() { all_nodes(c, out) }
}
/// characters with the classes that matter to text processing: letters in both cases, a digit,
/// blanks of one, two and three bytes, apostrophe, letters of two, three and four bytes
pub const TEXT: &[char] = &['a', 'B', '1', ' ', '\n', '\'', '.', '\u{a0}', '\u{3000}', 'é', 'ß', '中', '𝒳'];
/// unusual characters: control and format characters, marks, digits and letters of other scripts, quotes and dashes
pub const WIDE: &[char] = &['a', 's', ' ', '\'', '.', '\0', '\t', '\u{85}', '\u{ad}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{301}', '\u{b2}', '½', '_', '-', '`', '´', 'ʼ', '‘', '“', '”', '—', '…', '$', '𝒳', 'İ', 'ß', '٣', 'क', '‼', '。', '\u{202f}'];
