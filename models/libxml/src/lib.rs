//! Model of the part of the `libxml` crate (0.3.23) that llamapun uses: an in-memory DOM in a
//! global arena, the read-only node API, and a small XPath 1.0 evaluator. It stands in for the FFI
//! to libxml2 when the code is executed symbolically; every counterexample and a sample of the
//! explored paths is replayed against the real crate.
#![allow(static_mut_refs)]

pub(crate) mod arena {
  use super::tree::NodeType;
  #[derive(Clone, Copy, PartialEq, Eq, Debug)]
  pub enum Kind { Element, Text, CData, Comment, Document }
  pub struct Data {
    pub kind: Kind,
    pub name: String,
    pub content: String,
    pub attrs: Vec<(String, String)>,
    pub ns: Option<(String, String)>,
    pub parent: usize,
    pub first: usize,
    pub last: usize,
    pub prev: usize,
    pub next: usize,
  }
  static mut NODES: Vec<Data> = Vec::new();
  static mut PUBLISHED: Vec<(String, usize)> = Vec::new();
  pub fn publish(path: &str, doc: usize) { unsafe { PUBLISHED.push((path.to_string(), doc)) } }
  pub fn lookup(path: &str) -> Option<usize> {
    unsafe { PUBLISHED.iter().rev().find(|(p, _)| p == path).map(|(_, d)| *d) }
  }
  static mut AS_HTML: Vec<(usize, usize)> = Vec::new();
  pub fn as_html(doc: usize, html: usize) { unsafe { AS_HTML.push((doc, html)) } }
  /// what the HTML parser makes of a document, the same as the XML parser unless noted otherwise
  pub fn html_of(doc: usize) -> usize { unsafe { AS_HTML.iter().find(|x| x.0 == doc).map_or(doc, |x| x.1) } }
  pub fn n(id: usize) -> &'static mut Data { unsafe { &mut NODES[id - 1] } }
  pub fn new(kind: Kind, name: &str, content: &str) -> usize {
    unsafe {
      NODES.push(Data { kind, name: name.to_string(), content: content.to_string(), attrs: Vec::new(), ns: None,
        parent: 0, first: 0, last: 0, prev: 0, next: 0 });
      NODES.len()
    }
  }
  pub fn unlink(c: usize) {
    let (p, pr, nx) = { let d = n(c); (d.parent, d.prev, d.next) };
    if p != 0 {
      if n(p).first == c { n(p).first = nx; }
      if n(p).last == c { n(p).last = pr; }
    }
    if pr != 0 { n(pr).next = nx; }
    if nx != 0 { n(nx).prev = pr; }
    let d = n(c);
    d.parent = 0; d.prev = 0; d.next = 0;
  }
  pub fn append(p: usize, c: usize) {
    unlink(c);
    let last = n(p).last;
    n(c).parent = p;
    n(c).prev = last;
    if last != 0 { n(last).next = c; } else { n(p).first = c; }
    n(p).last = c;
  }
  pub fn text_of(id: usize, out: &mut String) {
    match n(id).kind {
      Kind::Text | Kind::CData => out.push_str(&n(id).content),
      Kind::Comment => {}
      _ => { let mut c = n(id).first; while c != 0 { text_of(c, out); c = n(c).next; } }
    }
  }
  pub fn content(id: usize) -> String {
    let mut s = String::new();
    if n(id).kind == Kind::Comment { s.push_str(&n(id).content) } else { text_of(id, &mut s) }
    s
  }
  pub fn ty(id: usize) -> NodeType {
    match n(id).kind {
      Kind::Element => NodeType::ElementNode,
      Kind::Text => NodeType::TextNode,
      Kind::CData => NodeType::CDataSectionNode,
      Kind::Comment => NodeType::CommentNode,
      Kind::Document => NodeType::DocumentNode,
    }
  }
  pub fn name(id: usize) -> String {
    match n(id).kind {
      Kind::Element => n(id).name.clone(),
      Kind::Text => "text".to_string(),
      Kind::Comment => "comment".to_string(),
      Kind::CData | Kind::Document => String::new(),
    }
  }
  pub fn attr(id: usize, name: &str) -> Option<String> {
    n(id).attrs.iter().find(|(k, _)| k == name).map(|(_, v)| v.clone())
  }
  pub fn set_attr(id: usize, name: &str, value: &str) {
    let d = n(id);
    for a in d.attrs.iter_mut() { if a.0 == name { a.1 = value.to_string(); return; } }
    d.attrs.push((name.to_string(), value.to_string()));
  }
  pub fn is_element(id: usize) -> bool { n(id).kind == Kind::Element }
}

pub mod readonly {
  use super::arena;
  use super::tree::{Document, Namespace, NodeType};
  use std::collections::{HashMap, HashSet};
  #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
  pub struct RoNode(pub(crate) usize);
  fn opt(i: usize) -> Option<RoNode> { if i == 0 { None } else { Some(RoNode(i)) } }
  impl RoNode {
    pub fn get_next_sibling(self) -> Option<RoNode> { opt(arena::n(self.0).next) }
    pub fn get_prev_sibling(self) -> Option<RoNode> { opt(arena::n(self.0).prev) }
    pub fn get_first_child(self) -> Option<RoNode> { opt(arena::n(self.0).first) }
    pub fn get_last_child(self) -> Option<RoNode> { opt(arena::n(self.0).last) }
    pub fn get_next_element_sibling(&self) -> Option<RoNode> {
      let mut c = arena::n(self.0).next;
      while c != 0 && !arena::is_element(c) { c = arena::n(c).next; }
      opt(c)
    }
    pub fn get_prev_element_sibling(&self) -> Option<RoNode> {
      let mut c = arena::n(self.0).prev;
      while c != 0 && !arena::is_element(c) { c = arena::n(c).prev; }
      opt(c)
    }
    pub fn get_first_element_child(self) -> Option<RoNode> {
      let mut c = arena::n(self.0).first;
      while c != 0 && !arena::is_element(c) { c = arena::n(c).next; }
      opt(c)
    }
    pub fn get_last_element_child(&self) -> Option<RoNode> {
      let mut c = arena::n(self.0).last;
      while c != 0 && !arena::is_element(c) { c = arena::n(c).prev; }
      opt(c)
    }
    pub fn get_child_nodes(self) -> Vec<RoNode> {
      let mut v = Vec::new();
      let mut c = arena::n(self.0).first;
      while c != 0 { v.push(RoNode(c)); c = arena::n(c).next; }
      v
    }
    pub fn get_child_elements(self) -> Vec<RoNode> {
      let mut v = self.get_child_nodes();
      v.retain(|n| arena::is_element(n.0));
      v
    }
    pub fn get_parent(self) -> Option<RoNode> { opt(arena::n(self.0).parent) }
    pub fn get_type(self) -> Option<NodeType> { Some(arena::ty(self.0)) }
    pub fn is_text_node(self) -> bool { arena::n(self.0).kind == arena::Kind::Text }
    pub fn is_element_node(self) -> bool { arena::is_element(self.0) }
    pub fn is_null(self) -> bool { self.0 == 0 }
    pub fn get_name(self) -> String { arena::name(self.0) }
    pub fn get_content(self) -> String { arena::content(self.0) }
    pub fn get_property(self, name: &str) -> Option<String> { arena::attr(self.0, name) }
    pub fn get_attribute(self, name: &str) -> Option<String> { arena::attr(self.0, name) }
    pub fn has_property(self, name: &str) -> bool { arena::attr(self.0, name).is_some() }
    pub fn has_attribute(self, name: &str) -> bool { arena::attr(self.0, name).is_some() }
    pub fn get_properties(self) -> HashMap<String, String> { arena::n(self.0).attrs.iter().cloned().collect() }
    pub fn get_attributes(self) -> HashMap<String, String> { self.get_properties() }
    pub fn get_namespace(self) -> Option<Namespace> {
      arena::n(self.0).ns.clone().map(|(prefix, href)| Namespace { prefix, href })
    }
    pub fn get_class_names(self) -> HashSet<String> {
      let mut set = HashSet::new();
      if let Some(value) = self.get_property("class") {
        for n in value.split(' ') { set.insert(n.to_owned()); }
      }
      set
    }
    pub fn findnodes(self, xpath: &str, owner: &Document) -> Result<Vec<RoNode>, ()> {
      let context = super::xpath::Context::new(owner)?;
      Ok(context.node_evaluate_readonly(xpath, self)?.get_readonly_nodes_as_vec())
    }
    pub fn get_property_no_ns(self, name: &str) -> Option<String> { if name.contains(':') { None } else { self.get_property(name) } }
    pub fn get_attribute_no_ns(self, name: &str) -> Option<String> { self.get_property_no_ns(name) }
    pub fn has_property_no_ns(self, name: &str) -> bool { self.get_property_no_ns(name).is_some() }
    pub fn has_attribute_no_ns(self, name: &str) -> bool { self.get_property_no_ns(name).is_some() }
    pub fn is_unlinked(self) -> bool { false }
    pub fn to_hashable(self) -> usize { self.0 }
    pub fn null() -> Self { RoNode(0) }
  }
}

pub mod tree {
  use super::arena::{self, Kind};
  use super::readonly::RoNode;
  use std::collections::{HashMap, HashSet};
  use std::error::Error;
  #[derive(Debug, PartialEq, Eq, Clone, Copy)]
  pub enum NodeType {
    ElementNode, AttributeNode, TextNode, CDataSectionNode, EntityRefNode, EntityNode, PiNode, CommentNode,
    DocumentNode, DocumentTypeNode, DocumentFragNode, NotationNode, HtmlDocumentNode, DTDNode, ElementDecl,
    AttributeDecl, EntityDecl, NamespaceDecl, XIncludeStart, XIncludeEnd, DOCBDocumentNode,
  }
  #[derive(Clone, Debug, PartialEq, Eq, Hash)]
  pub struct Namespace { pub(crate) prefix: String, pub(crate) href: String }
  impl Namespace {
    pub fn new(prefix: &str, href: &str, _node: &mut Node) -> Result<Self, Box<dyn Error + Send + Sync>> {
      Ok(Namespace { prefix: prefix.to_string(), href: href.to_string() })
    }
    pub fn get_prefix(&self) -> String { self.prefix.clone() }
    pub fn get_href(&self) -> String { self.href.clone() }
  }
  #[derive(Clone)]
  pub struct Document(pub(crate) usize);
  impl Document {
    pub fn new() -> Result<Self, ()> { Ok(Document(arena::new(Kind::Document, "", ""))) }
    fn root(&self) -> usize {
      let mut c = arena::n(self.0).first;
      while c != 0 && !arena::is_element(c) { c = arena::n(c).next; }
      c
    }
    pub fn get_root_element(&self) -> Option<Node> { let r = self.root(); if r == 0 { None } else { Some(Node(r)) } }
    pub fn get_root_readonly(&self) -> Option<RoNode> { let r = self.root(); if r == 0 { None } else { Some(RoNode(r)) } }
    pub fn set_root_element(&mut self, root: &Node) {
      let old = self.root();
      if old != 0 { arena::unlink(old); }
      arena::append(self.0, root.0);
    }
    /// model only: make the document available to `Parser::parse_file`
    pub fn model_publish(&self, path: &str) { arena::publish(path, self.0) }
    /// model only: what the HTML parser makes of this document
    pub fn model_as_html(&self, html: &Document) { arena::as_html(self.0, html.0) }
  }
  #[derive(Clone, Debug, PartialEq, Eq, Hash)]
  pub struct Node(pub(crate) usize);
  type Res = Result<(), Box<dyn Error + Send + Sync>>;
  impl Node {
    pub fn new(name: &str, ns: Option<Namespace>, _doc: &Document) -> Result<Self, ()> {
      let id = arena::new(Kind::Element, name, "");
      arena::n(id).ns = ns.map(|n| (n.prefix, n.href));
      Ok(Node(id))
    }
    /// model only
    pub fn model_cdata(content: &str) -> Self { Node(arena::new(Kind::CData, "", content)) }
    pub fn new_text(content: &str, _doc: &Document) -> Result<Self, ()> { Ok(Node(arena::new(Kind::Text, "text", content))) }
    pub fn new_comment(content: &str, _doc: &Document) -> Result<Self, ()> { Ok(Node(arena::new(Kind::Comment, "comment", content))) }
    fn ro(&self) -> RoNode { RoNode(self.0) }
    pub fn to_hashable(&self) -> usize { self.0 }
    pub fn get_next_sibling(&self) -> Option<Node> { self.ro().get_next_sibling().map(|n| Node(n.0)) }
    pub fn get_prev_sibling(&self) -> Option<Node> { self.ro().get_prev_sibling().map(|n| Node(n.0)) }
    pub fn get_first_child(&self) -> Option<Node> { self.ro().get_first_child().map(|n| Node(n.0)) }
    pub fn get_last_child(&self) -> Option<Node> { self.ro().get_last_child().map(|n| Node(n.0)) }
    pub fn get_first_element_child(&self) -> Option<Node> { self.ro().get_first_element_child().map(|n| Node(n.0)) }
    pub fn get_next_element_sibling(&self) -> Option<Node> { self.ro().get_next_element_sibling().map(|n| Node(n.0)) }
    pub fn get_child_nodes(&self) -> Vec<Node> { self.ro().get_child_nodes().into_iter().map(|n| Node(n.0)).collect() }
    pub fn get_child_elements(&self) -> Vec<Node> { self.ro().get_child_elements().into_iter().map(|n| Node(n.0)).collect() }
    pub fn get_prev_element_sibling(&self) -> Option<Node> { self.ro().get_prev_element_sibling().map(|n| Node(n.0)) }
    pub fn get_last_element_child(&self) -> Option<Node> { self.ro().get_last_element_child().map(|n| Node(n.0)) }
    pub fn is_null(&self) -> bool { self.0 == 0 }
    pub fn null() -> Self { Node(0) }
    pub fn ancestors(&self) -> Vec<Node> {
      let mut v = Vec::new();
      let mut c = self.get_parent();
      while let Some(n) = c { if !n.is_element_node() { break; } c = n.get_parent(); v.push(n); }
      v
    }
    pub fn unlink(&mut self) { arena::unlink(self.0) }
    pub fn unlink_node(&mut self) { arena::unlink(self.0) }
    pub fn get_property_no_ns(&self, name: &str) -> Option<String> { self.ro().get_property_no_ns(name) }
    pub fn get_attribute_no_ns(&self, name: &str) -> Option<String> { self.ro().get_property_no_ns(name) }
    pub fn has_property_no_ns(&self, name: &str) -> bool { self.ro().has_property_no_ns(name) }
    pub fn has_attribute_no_ns(&self, name: &str) -> bool { self.ro().has_property_no_ns(name) }
    pub fn with_property<R>(&self, name: &std::ffi::CStr, f: impl FnOnce(&str) -> R) -> Option<R> { self.ro().get_property(name.to_str().ok()?).map(|v| f(&v)) }
    pub fn with_attribute<R>(&self, name: &std::ffi::CStr, f: impl FnOnce(&str) -> R) -> Option<R> { self.with_property(name, f) }
    pub fn findvalues(&self, xpath: &str) -> Result<Vec<String>, ()> { Ok(self.findnodes(xpath)?.iter().map(|n| n.get_content()).collect()) }
    pub fn get_parent(&self) -> Option<Node> { self.ro().get_parent().map(|n| Node(n.0)) }
    pub fn get_type(&self) -> Option<NodeType> { self.ro().get_type() }
    pub fn is_text_node(&self) -> bool { self.ro().is_text_node() }
    pub fn is_element_node(&self) -> bool { self.ro().is_element_node() }
    pub fn get_name(&self) -> String { self.ro().get_name() }
    pub fn get_content(&self) -> String { self.ro().get_content() }
    pub fn get_property(&self, name: &str) -> Option<String> { self.ro().get_property(name) }
    pub fn get_attribute(&self, name: &str) -> Option<String> { self.ro().get_property(name) }
    pub fn has_property(&self, name: &str) -> bool { self.ro().has_property(name) }
    pub fn has_attribute(&self, name: &str) -> bool { self.ro().has_property(name) }
    pub fn get_properties(&self) -> HashMap<String, String> { self.ro().get_properties() }
    pub fn get_attributes(&self) -> HashMap<String, String> { self.ro().get_properties() }
    pub fn get_class_names(&self) -> HashSet<String> { self.ro().get_class_names() }
    pub fn get_namespace(&self) -> Option<Namespace> { self.ro().get_namespace() }
    pub fn set_namespace(&mut self, ns: &Namespace) -> Res {
      arena::n(self.0).ns = Some((ns.prefix.clone(), ns.href.clone()));
      Ok(())
    }
    pub fn set_property(&mut self, name: &str, value: &str) -> Res { arena::set_attr(self.0, name, value); Ok(()) }
    pub fn set_attribute(&mut self, name: &str, value: &str) -> Res { arena::set_attr(self.0, name, value); Ok(()) }
    pub fn add_child(&mut self, child: &mut Node) -> Result<(), String> { arena::append(self.0, child.0); Ok(()) }
    pub fn append_text(&mut self, content: &str) -> Res {
      if content.is_empty() { return Ok(()); }
      let last = arena::n(self.0).last;
      if last != 0 && arena::n(last).kind == Kind::Text {
        arena::n(last).content.push_str(content);
      } else {
        let t = arena::new(Kind::Text, "text", content);
        arena::append(self.0, t);
      }
      Ok(())
    }
    pub fn findnodes(&self, xpath: &str) -> Result<Vec<Node>, ()> {
      super::xpath::evaluate_from(xpath, self.0, &[]).map(|v| v.nodes().into_iter().map(Node).collect())
    }
  }
}

pub mod parser {
  use super::arena;
  use super::tree::Document;
  use std::fmt;
  #[derive(Debug)]
  pub enum XmlParseError { GotNullPointer, FileOpenError, DocumentTooLarge }
  impl std::error::Error for XmlParseError {}
  impl fmt::Display for XmlParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str(match self {
        XmlParseError::GotNullPointer => "Got a Null pointer",
        XmlParseError::FileOpenError => "Unable to open path to file.",
        XmlParseError::DocumentTooLarge => "Document too large for i32.",
      })
    }
  }
  pub struct Parser { html: bool }
  impl Default for Parser { fn default() -> Self { Parser { html: false } } }
  impl Parser {
    pub fn default_html() -> Self { Parser { html: true } }
    pub fn parse_file(&self, filename: &str) -> Result<Document, XmlParseError> {
      match arena::lookup(filename) {
        // a file without any element (a directory reads like that, too) is no XML, but an HTML document without root
        Some(d) if !self.html && Document(d).get_root_readonly().is_none() => Err(XmlParseError::GotNullPointer),
        Some(d) if self.html => Ok(Document(arena::html_of(d))),
        Some(d) => Ok(Document(d)),
        None => Err(XmlParseError::FileOpenError),
      }
    }
  }
}

pub mod xpath {
  use super::arena::{self, Kind};
  use super::readonly::RoNode;
  use super::tree::{Document, Node};

  /// XPath evaluation context. As in libxml2, the context node of the last `node_evaluate` call
  /// stays the context node of the following `evaluate` calls.
  #[derive(Clone)]
  pub struct Context { inner: std::rc::Rc<Inner> }
  struct Inner { cur: std::cell::Cell<usize>, ns: std::cell::RefCell<Vec<(String, String)>> }
  pub struct Object { val: Val }

  impl Context {
    pub fn new(doc: &Document) -> Result<Context, ()> {
      Ok(Context { inner: std::rc::Rc::new(Inner { cur: std::cell::Cell::new(doc.0), ns: std::cell::RefCell::new(Vec::new()) }) })
    }
    pub fn register_namespace(&self, prefix: &str, href: &str) -> Result<(), ()> {
      self.inner.ns.borrow_mut().push((prefix.to_string(), href.to_string()));
      Ok(())
    }
    fn run(&self, xpath: &str) -> Result<Object, ()> {
      Ok(Object { val: evaluate_from(xpath, self.inner.cur.get(), &self.inner.ns.borrow())? })
    }
    pub fn evaluate(&self, xpath: &str) -> Result<Object, ()> { self.run(xpath) }
    pub fn node_evaluate(&self, xpath: &str, node: &Node) -> Result<Object, ()> {
      self.inner.cur.set(node.0);
      self.run(xpath)
    }
    pub fn node_evaluate_readonly(&self, xpath: &str, node: RoNode) -> Result<Object, ()> {
      self.inner.cur.set(node.0);
      self.run(xpath)
    }
    pub fn from_node(node: &Node) -> Result<Context, ()> {
      let mut d = node.0;
      while arena::n(d).parent != 0 { d = arena::n(d).parent; }
      let c = Context::new(&Document(d))?;
      c.inner.cur.set(node.0);
      Ok(c)
    }
    pub fn findvalues(&mut self, xpath: &str, node: Option<&Node>) -> Result<Vec<String>, ()> {
      if let Some(n) = node { self.inner.cur.set(n.0); }
      Ok(self.run(xpath)?.get_nodes_as_str())
    }
    pub fn findvalue(&mut self, xpath: &str, node: Option<&Node>) -> Result<String, ()> {
      if let Some(n) = node { self.inner.cur.set(n.0); }
      Ok(self.run(xpath)?.to_string())
    }
    pub fn set_context_node(&mut self, node: &Node) -> Result<(), ()> { self.inner.cur.set(node.0); Ok(()) }
    pub fn findnodes(&mut self, xpath: &str, node: Option<&Node>) -> Result<Vec<Node>, ()> {
      if let Some(n) = node { self.inner.cur.set(n.0); }
      Ok(self.run(xpath)?.get_nodes_as_vec())
    }
  }
  impl std::fmt::Display for Object { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.val.string()) } }
  impl Object {
    pub fn get_nodes_as_str(&self) -> Vec<String> { match &self.val { Val::Set(v) => v.iter().map(istr).collect(), _ => Vec::new() } }
    pub fn get_number_of_nodes(&self) -> usize { match &self.val { Val::Set(v) => v.len(), _ => 0 } }
    pub fn get_nodes_as_vec(&self) -> Vec<Node> { self.val.clone().nodes().into_iter().map(Node).collect() }
    pub fn get_readonly_nodes_as_vec(&self) -> Vec<RoNode> { self.val.clone().nodes().into_iter().map(RoNode).collect() }
  }

  #[derive(Clone)]
  pub enum Item { N(usize), A(String) }
  #[derive(Clone)]
  pub enum Val { Set(Vec<Item>), S(String), I(i64), NaN, B(bool) }
  impl Val {
    pub fn nodes(self) -> Vec<usize> {
      match self {
        Val::Set(v) => v.into_iter().filter_map(|i| match i { Item::N(n) => Some(n), _ => None }).collect(),
        _ => Vec::new(),
      }
    }
    fn truth(&self) -> bool {
      match self { Val::Set(v) => !v.is_empty(), Val::S(s) => !s.is_empty(), Val::I(i) => *i != 0, Val::NaN => false, Val::B(b) => *b }
    }
    fn string(&self) -> String {
      match self {
        Val::Set(v) => v.first().map(istr).unwrap_or_default(),
        Val::S(s) => s.clone(),
        Val::I(i) => i.to_string(),
        Val::NaN => "NaN".to_string(),
        Val::B(b) => b.to_string(),
      }
    }
    fn num(&self) -> Option<i64> {
      match self { Val::I(i) => Some(*i), Val::NaN => None, Val::B(b) => Some(*b as i64), o => o.string().trim().parse().ok() }
    }
  }
  fn of(x: Option<i64>) -> Val { x.map_or(Val::NaN, Val::I) }
  fn istr(i: &Item) -> String { match i { Item::N(n) => arena::content(*n), Item::A(s) => s.clone() } }

  #[derive(Clone, Debug, PartialEq)]
  enum Tok { Slash, DSlash, LB, RB, LP, RP, At, Dot, DDot, Comma, Star, Axis, Pipe, Eq, Ne, Lt, Le, Gt, Ge, Minus, Plus, Name(String), Lit(String), Num(i64) }
  fn lex(s: &str) -> Result<Vec<Tok>, ()> {
    let b: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
      let c = b[i];
      let two = |x: char| i + 1 < b.len() && b[i + 1] == x;
      match c {
        ' ' | '\t' | '\n' => i += 1,
        '/' => if two('/') { v.push(Tok::DSlash); i += 2 } else { v.push(Tok::Slash); i += 1 },
        '[' => { v.push(Tok::LB); i += 1 }
        ']' => { v.push(Tok::RB); i += 1 }
        '(' => { v.push(Tok::LP); i += 1 }
        ')' => { v.push(Tok::RP); i += 1 }
        '@' => { v.push(Tok::At); i += 1 }
        ',' => { v.push(Tok::Comma); i += 1 }
        '*' => { v.push(Tok::Star); i += 1 }
        '|' => { v.push(Tok::Pipe); i += 1 }
        '+' => { v.push(Tok::Plus); i += 1 }
        '-' => { v.push(Tok::Minus); i += 1 }
        '=' => { v.push(Tok::Eq); i += 1 }
        '!' => if two('=') { v.push(Tok::Ne); i += 2 } else { return Err(()) },
        '<' => if two('=') { v.push(Tok::Le); i += 2 } else { v.push(Tok::Lt); i += 1 },
        '>' => if two('=') { v.push(Tok::Ge); i += 2 } else { v.push(Tok::Gt); i += 1 },
        ':' => if two(':') { v.push(Tok::Axis); i += 2 } else { return Err(()) },
        '.' => if two('.') { v.push(Tok::DDot); i += 2 } else { v.push(Tok::Dot); i += 1 },
        '\'' | '"' => {
          let mut j = i + 1;
          let mut t = String::new();
          while j < b.len() && b[j] != c { t.push(b[j]); j += 1; }
          if j >= b.len() { return Err(()); }
          v.push(Tok::Lit(t));
          i = j + 1;
        }
        c if c.is_ascii_digit() => {
          let mut n = 0i64;
          while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] as i64 - 48); i += 1; }
          v.push(Tok::Num(n));
        }
        c if c.is_alphabetic() || c == '_' => {
          let mut t = String::new();
          while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '-' || b[i] == '.'
            || (b[i] == ':' && !(i + 1 < b.len() && b[i + 1] == ':') && !t.contains(':')
                && i + 1 < b.len() && (b[i + 1].is_alphabetic() || b[i + 1] == '_' || b[i + 1] == '*'))) {
            t.push(b[i]);
            i += 1;
          }
          v.push(Tok::Name(t));
        }
        _ => return Err(()),
      }
    }
    Ok(v)
  }

  struct P<'a> { t: &'a [Tok], i: usize }
  enum E {
    Or(Box<E>, Box<E>), And(Box<E>, Box<E>), Cmp(Tok, Box<E>, Box<E>), Union(Box<E>, Box<E>),
    Arith(Tok, Box<E>, Box<E>),
    Lit(String), Num(i64), Call(String, Vec<E>),
    Path(Option<Box<E>>, bool, Vec<Step>), // (start expression, absolute, steps)
    Filter(Box<E>, Vec<E>),
  }
  #[derive(Clone, Copy, PartialEq)]
  enum Ax { Child, Desc, DescSelf, Parent, Anc, AncSelf, Foll, Prec, FollAll, PrecAll, Attr, Slf }
  enum Test { Any, Text, Node, Comment, Name(String) }
  struct Step { ax: Ax, test: Test, preds: Vec<E> }
  type R<T> = Result<T, ()>;
  impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn peek2(&self) -> Option<&Tok> { self.t.get(self.i + 1) }
    fn eat(&mut self, t: &Tok) -> bool { if self.peek() == Some(t) { self.i += 1; true } else { false } }
    fn need(&mut self, t: &Tok) -> R<()> { if self.eat(t) { Ok(()) } else { Err(()) } }
    fn kw(&mut self, k: &str) -> bool {
      if let Some(Tok::Name(n)) = self.peek() { if n == k { self.i += 1; return true; } }
      false
    }
    fn or(&mut self) -> R<E> {
      let mut a = self.and()?;
      while self.kw("or") { let b = self.and()?; a = E::Or(Box::new(a), Box::new(b)); }
      Ok(a)
    }
    fn and(&mut self) -> R<E> {
      let mut a = self.cmp()?;
      while self.kw("and") { let b = self.cmp()?; a = E::And(Box::new(a), Box::new(b)); }
      Ok(a)
    }
    fn cmp(&mut self) -> R<E> {
      let mut a = self.add()?;
      loop {
        let t = match self.peek() {
          Some(t @ (Tok::Eq | Tok::Ne | Tok::Lt | Tok::Le | Tok::Gt | Tok::Ge)) => t.clone(),
          _ => return Ok(a),
        };
        self.i += 1;
        let b = self.add()?;
        a = E::Cmp(t, Box::new(a), Box::new(b));
      }
    }
    fn add(&mut self) -> R<E> {
      let mut a = self.mul()?;
      loop {
        let t = match self.peek() { Some(t @ (Tok::Plus | Tok::Minus)) => t.clone(), _ => return Ok(a) };
        self.i += 1;
        let b = self.mul()?;
        a = E::Arith(t, Box::new(a), Box::new(b));
      }
    }
    fn mul(&mut self) -> R<E> {
      let mut a = self.unary()?;
      loop {
        let t = match self.peek() {
          Some(t @ Tok::Star) => t.clone(),
          Some(t @ Tok::Name(k)) if k == "mod" || k == "div" => t.clone(),
          _ => return Ok(a),
        };
        self.i += 1;
        let b = self.unary()?;
        a = E::Arith(t, Box::new(a), Box::new(b));
      }
    }
    fn unary(&mut self) -> R<E> {
      if self.eat(&Tok::Minus) { let e = self.unary()?; return Ok(E::Arith(Tok::Minus, Box::new(E::Num(0)), Box::new(e))); }
      self.union()
    }
    fn union(&mut self) -> R<E> {
      let mut a = self.path()?;
      while self.eat(&Tok::Pipe) { let b = self.path()?; a = E::Union(Box::new(a), Box::new(b)); }
      Ok(a)
    }
    fn path(&mut self) -> R<E> {
      let primary = match self.peek() {
        Some(Tok::Lit(s)) => { let s = s.clone(); self.i += 1; Some(E::Lit(s)) }
        Some(Tok::Num(n)) => { let n = *n; self.i += 1; Some(E::Num(n)) }
        Some(Tok::LP) => { self.i += 1; let e = self.or()?; self.need(&Tok::RP)?; Some(e) }
        Some(Tok::Name(n)) if self.peek2() == Some(&Tok::LP) && !["text", "node", "comment"].contains(&n.as_str()) => {
          let n = n.clone();
          self.i += 2;
          let mut args = Vec::new();
          if !self.eat(&Tok::RP) {
            loop {
              args.push(self.or()?);
              if self.eat(&Tok::Comma) { continue; }
              self.need(&Tok::RP)?;
              break;
            }
          }
          Some(E::Call(n, args))
        }
        _ => None,
      };
      if let Some(mut p) = primary {
        let preds = self.preds()?;
        if !preds.is_empty() { p = E::Filter(Box::new(p), preds); }
        if matches!(self.peek(), Some(Tok::Slash | Tok::DSlash)) {
          let mut steps = Vec::new();
          self.tail(&mut steps)?;
          return Ok(E::Path(Some(Box::new(p)), false, steps));
        }
        return Ok(p);
      }
      let mut steps = Vec::new();
      let abs;
      if self.eat(&Tok::Slash) {
        abs = true;
        match self.peek() {
          Some(Tok::Name(_) | Tok::Star | Tok::At | Tok::Dot | Tok::DDot) => {}
          _ => return Ok(E::Path(None, true, steps)),
        }
        self.step(&mut steps)?;
      } else if self.eat(&Tok::DSlash) {
        abs = true;
        steps.push(Step { ax: Ax::DescSelf, test: Test::Node, preds: Vec::new() });
        self.step(&mut steps)?;
      } else {
        abs = false;
        self.step(&mut steps)?;
      }
      self.tail(&mut steps)?;
      Ok(E::Path(None, abs, steps))
    }
    fn tail(&mut self, steps: &mut Vec<Step>) -> R<()> {
      loop {
        if self.eat(&Tok::Slash) {
          self.step(steps)?;
        } else if self.eat(&Tok::DSlash) {
          steps.push(Step { ax: Ax::DescSelf, test: Test::Node, preds: Vec::new() });
          self.step(steps)?;
        } else {
          return Ok(());
        }
      }
    }
    fn step(&mut self, steps: &mut Vec<Step>) -> R<()> {
      if self.eat(&Tok::Dot) { steps.push(Step { ax: Ax::Slf, test: Test::Node, preds: Vec::new() }); return Ok(()); }
      if self.eat(&Tok::DDot) { steps.push(Step { ax: Ax::Parent, test: Test::Node, preds: Vec::new() }); return Ok(()); }
      let mut ax = Ax::Child;
      if self.eat(&Tok::At) {
        ax = Ax::Attr;
      } else if self.peek2() == Some(&Tok::Axis) {
        let n = match self.peek() { Some(Tok::Name(n)) => n.clone(), _ => return Err(()) };
        ax = match n.as_str() {
          "child" => Ax::Child, "descendant" => Ax::Desc, "descendant-or-self" => Ax::DescSelf, "parent" => Ax::Parent,
          "ancestor" => Ax::Anc, "ancestor-or-self" => Ax::AncSelf, "following-sibling" => Ax::Foll,
          "preceding-sibling" => Ax::Prec, "following" => Ax::FollAll, "preceding" => Ax::PrecAll,
          "attribute" => Ax::Attr, "self" => Ax::Slf,
          _ => return Err(()),
        };
        self.i += 2;
      }
      let test = match self.peek() {
        Some(Tok::Star) => { self.i += 1; Test::Any }
        Some(Tok::Name(n)) => {
          let n = n.clone();
          self.i += 1;
          if self.peek() == Some(&Tok::LP) {
            self.i += 1;
            self.need(&Tok::RP)?;
            match n.as_str() { "text" => Test::Text, "node" => Test::Node, "comment" => Test::Comment, _ => return Err(()) }
          } else {
            Test::Name(n)
          }
        }
        _ => return Err(()),
      };
      let preds = self.preds()?;
      steps.push(Step { ax, test, preds });
      Ok(())
    }
    fn preds(&mut self) -> R<Vec<E>> {
      let mut v = Vec::new();
      while self.eat(&Tok::LB) { v.push(self.or()?); self.need(&Tok::RB)?; }
      Ok(v)
    }
  }

  struct Env<'a> { ns: &'a [(String, String)] }
  fn doc_of(mut n: usize) -> usize { while arena::n(n).parent != 0 { n = arena::n(n).parent; } n }
  fn descend(n: usize, out: &mut Vec<usize>) {
    let mut c = arena::n(n).first;
    while c != 0 { out.push(c); descend(c, out); c = arena::n(c).next; }
  }
  fn axis(ax: Ax, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    match ax {
      Ax::Child => { let mut c = arena::n(n).first; while c != 0 { v.push(c); c = arena::n(c).next; } }
      Ax::Desc => descend(n, &mut v),
      Ax::DescSelf => { v.push(n); descend(n, &mut v) }
      Ax::Parent => if arena::n(n).parent != 0 { v.push(arena::n(n).parent) },
      Ax::Anc | Ax::AncSelf => {
        if ax == Ax::AncSelf { v.push(n); }
        let mut p = arena::n(n).parent;
        while p != 0 { v.push(p); p = arena::n(p).parent; }
      }
      Ax::Foll => { let mut c = arena::n(n).next; while c != 0 { v.push(c); c = arena::n(c).next; } }
      Ax::Prec => { let mut c = arena::n(n).prev; while c != 0 { v.push(c); c = arena::n(c).prev; } }
      Ax::FollAll => {
        let mut a = n;
        while a != 0 {
          let mut c = arena::n(a).next;
          while c != 0 { v.push(c); descend(c, &mut v); c = arena::n(c).next; }
          a = arena::n(a).parent;
        }
      }
      Ax::PrecAll => {
        let mut a = n;
        while a != 0 {
          let mut c = arena::n(a).prev;
          while c != 0 { let mut d = vec![c]; descend(c, &mut d); d.reverse(); v.extend(d); c = arena::n(c).prev; }
          a = arena::n(a).parent;
        }
      }
      Ax::Slf => v.push(n),
      Ax::Attr => {}
    }
    v
  }
  fn name_ok(env: &Env, n: usize, t: &str) -> R<bool> {
    if arena::n(n).kind != Kind::Element { 
      if let Some((p, _)) = t.split_once(':') { if !env.ns.iter().any(|(q, _)| q == p) { return Err(()); } }
      return Ok(false);
    }
    match t.split_once(':') {
      None => Ok(arena::n(n).ns.is_none() && arena::n(n).name == t),
      Some((p, l)) => {
        let href = match env.ns.iter().find(|(q, _)| q == p) { Some((_, h)) => h, None => return Err(()) };
        Ok(arena::n(n).ns.as_ref().map(|x| &x.1 == href).unwrap_or(false) && (l == "*" || arena::n(n).name == l))
      }
    }
  }
  fn eval_step(env: &Env, st: &Step, n: usize) -> R<Vec<Item>> {
    if st.ax == Ax::Attr {
      let mut v: Vec<Item> = Vec::new();
      for (k, val) in arena::n(n).attrs.iter() {
        let ok = match &st.test { Test::Any | Test::Node => true, Test::Name(t) => t == k, _ => false };
        if ok { v.push(Item::A(val.clone())); }
      }
      return Ok(v);
    }
    let mut v = Vec::new();
    for m in axis(st.ax, n) {
      let ok = match &st.test {
        Test::Any => arena::is_element(m),
        Test::Text => matches!(arena::n(m).kind, Kind::Text | Kind::CData),
        Test::Comment => arena::n(m).kind == Kind::Comment,
        Test::Node => true,
        Test::Name(t) => name_ok(env, m, t)?,
      };
      if ok { v.push(m); }
    }
    for p in &st.preds { v = filter(env, v, p)?; }
    Ok(v.into_iter().map(Item::N).collect())
  }
  fn filter(env: &Env, v: Vec<usize>, p: &E) -> R<Vec<usize>> {
    let last = v.len();
    let mut w = Vec::new();
    for (i, m) in v.into_iter().enumerate() {
      let keep = match eval(env, p, m, i + 1, last)? { Val::I(k) => k == (i + 1) as i64, o => o.truth() };
      if keep { w.push(m); }
    }
    Ok(w)
  }
  fn doc_order(v: Vec<Item>) -> Vec<Item> {
    let mut ids = Vec::new();
    for i in &v { match i { Item::N(n) => ids.push(*n), Item::A(_) => return v } }
    if ids.len() < 2 { return v; }
    let d = doc_of(ids[0]);
    let mut all = vec![d];
    descend(d, &mut all);
    all.into_iter().filter(|x| ids.contains(x)).map(Item::N).collect()
  }
  fn eval(env: &Env, e: &E, n: usize, pos: usize, last: usize) -> R<Val> {
    Ok(match e {
      E::Or(a, b) => Val::B(eval(env, a, n, pos, last)?.truth() || eval(env, b, n, pos, last)?.truth()),
      E::And(a, b) => Val::B(eval(env, a, n, pos, last)?.truth() && eval(env, b, n, pos, last)?.truth()),
      E::Arith(t, a, b) => {
        let (x, y) = match (eval(env, a, n, pos, last)?.num(), eval(env, b, n, pos, last)?.num()) { (Some(x), Some(y)) => (x, y), _ => return Ok(Val::NaN) };
        Val::I(match t {
          Tok::Plus => x + y,
          Tok::Minus => x - y,
          Tok::Star => x * y,
          // numbers that are not whole are not modelled
          Tok::Name(k) if k == "mod" && y != 0 => x % y,
          _ if y != 0 && x % y == 0 => x / y,
          _ => return Err(()),
        })
      }
      E::Cmp(t, a, b) => {
        let (x, y) = (eval(env, a, n, pos, last)?, eval(env, b, n, pos, last)?);
        match t {
          Tok::Eq | Tok::Ne => Val::B(equal(&x, &y, *t == Tok::Eq)),
          _ => match (x.num(), y.num()) {
            (Some(p), Some(q)) => Val::B(match t { Tok::Lt => p < q, Tok::Le => p <= q, Tok::Gt => p > q, _ => p >= q }),
            _ => Val::B(false),
          },
        }
      }
      E::Union(a, b) => match (eval(env, a, n, pos, last)?, eval(env, b, n, pos, last)?) {
        (Val::Set(mut x), Val::Set(y)) => { x.extend(y); Val::Set(doc_order(x)) }
        _ => return Err(()),
      },
      E::Lit(s) => Val::S(s.clone()),
      E::Num(i) => Val::I(*i),
      E::Call(f, args) => call(env, f, args, n, pos, last)?,
      E::Filter(p, preds) => match eval(env, p, n, pos, last)? {
        Val::Set(v) => {
          let mut v = Val::Set(v).nodes();
          for p in preds { v = filter(env, v, p)?; }
          Val::Set(v.into_iter().map(Item::N).collect())
        }
        _ => return Err(()),
      },
      E::Path(start, abs, steps) => {
        let mut cur: Vec<Item> = match start {
          Some(s) => match eval(env, s, n, pos, last)? { Val::Set(v) => v, _ => return Err(()) },
          None => vec![Item::N(if *abs { doc_of(n) } else { n })],
        };
        for st in steps {
          let mut next = Vec::new();
          for i in &cur { if let Item::N(m) = i { next.extend(eval_step(env, st, *m)?); } }
          cur = doc_order(next);
        }
        Val::Set(cur)
      }
    })
  }
  fn equal(x: &Val, y: &Val, eq: bool) -> bool {
    match (x, y) {
      (Val::B(_), _) | (_, Val::B(_)) => (x.truth() == y.truth()) == eq,
      (Val::Set(a), Val::Set(b)) => a.iter().any(|p| b.iter().any(|q| (istr(p) == istr(q)) == eq)),
      (Val::Set(a), o) | (o, Val::Set(a)) => match o {
        Val::I(k) => a.iter().any(|p| (Val::S(istr(p)).num() == Some(*k)) == eq),
        Val::NaN => !a.is_empty() && !eq,
        o => { let s = o.string(); a.iter().any(|p| (istr(p) == s) == eq) }
      },
      (Val::I(_) | Val::NaN, _) | (_, Val::I(_) | Val::NaN) => (x.num().is_some() && x.num() == y.num()) == eq,
      _ => (x.string() == y.string()) == eq,
    }
  }
  fn call(env: &Env, f: &str, args: &[E], n: usize, pos: usize, last: usize) -> R<Val> {
    let a = |i: usize| -> R<Val> { eval(env, args.get(i).ok_or(())?, n, pos, last) };
    Ok(match f {
      "local-name" | "name" => {
        let m = if args.is_empty() { Some(n) } else { a(0)?.nodes().first().copied() };
        Val::S(match m {
          Some(m) if arena::is_element(m) => {
            let d = arena::n(m);
            match &d.ns { Some((p, _)) if f == "name" && !p.is_empty() => format!("{}:{}", p, d.name), _ => d.name.clone() }
          }
          _ => String::new(),
        })
      }
      "not" => Val::B(!a(0)?.truth()),
      "true" => Val::B(true),
      "false" => Val::B(false),
      "position" => Val::I(pos as i64),
      "last" => Val::I(last as i64),
      "count" => match a(0)? { Val::Set(v) => Val::I(v.len() as i64), _ => return Err(()) },
      "contains" => Val::B(a(0)?.string().contains(&a(1)?.string())),
      "starts-with" => Val::B(a(0)?.string().starts_with(&a(1)?.string())),
      "string" => Val::S(if args.is_empty() { arena::content(n) } else { a(0)?.string() }),
      "concat" => { let mut s = String::new(); for i in 0..args.len() { s.push_str(&a(i)?.string()); } Val::S(s) }
      "normalize-space" => {
        let s = if args.is_empty() { arena::content(n) } else { a(0)?.string() };
        Val::S(s.split(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r')).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" "))
      }
      "string-length" => {
        let s = if args.is_empty() { arena::content(n) } else { a(0)?.string() };
        Val::I(s.chars().count() as i64)
      }
      "substring" => {
        let s = a(0)?.string();
        let from = a(1)?.num().ok_or(())?;
        let to = if args.len() > 2 { from + a(2)?.num().ok_or(())? } else { i64::MAX };
        Val::S(s.chars().enumerate().filter(|(i, _)| { let k = *i as i64 + 1; k >= from && k < to }).map(|(_, c)| c).collect())
      }
      "substring-before" => { let (s, t) = (a(0)?.string(), a(1)?.string()); Val::S(s.find(&t[..]).map_or(String::new(), |i| s[..i].to_string())) }
      "substring-after" => { let (s, t) = (a(0)?.string(), a(1)?.string()); Val::S(s.find(&t[..]).map_or(String::new(), |i| s[i + t.len()..].to_string())) }
      "translate" => {
        let (s, from, to) = (a(0)?.string(), a(1)?.string(), a(2)?.string());
        let to: Vec<char> = to.chars().collect();
        Val::S(s.chars().filter_map(|c| match from.chars().position(|x| x == c) { None => Some(c), Some(i) => to.get(i).copied() }).collect())
      }
      "boolean" => Val::B(a(0)?.truth()),
      "number" => of(if args.is_empty() { Val::S(arena::content(n)).num() } else { a(0)?.num() }),
      "floor" | "ceiling" | "round" => of(a(0)?.num()),
      "sum" => match a(0)? { Val::Set(v) => { let mut t = Some(0); for i in &v { t = match (t, Val::S(istr(i)).num()) { (Some(x), Some(y)) => Some(x + y), _ => None }; } of(t) } _ => return Err(()) },
      "namespace-uri" => {
        let m = if args.is_empty() { Some(n) } else { a(0)?.nodes().first().copied() };
        Val::S(match m { Some(m) if arena::is_element(m) => arena::n(m).ns.as_ref().map_or(String::new(), |x| x.1.clone()), _ => String::new() })
      }
      _ => return Err(()),
    })
  }
  pub(crate) fn evaluate_from(xpath: &str, node: usize, ns: &[(String, String)]) -> Result<Val, ()> {
    let toks = lex(xpath)?;
    let mut p = P { t: &toks, i: 0 };
    let e = p.or()?;
    if p.i != toks.len() { return Err(()); }
    eval(&Env { ns }, &e, node, 1, 1)
  }
}
