// the engine's reach into the standard library: code after a change may use any of it
use crate::*;
use crate::common::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock, RwLock};

thread_local! { static TL: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) }; }
static ONCE: OnceLock<String> = OnceLock::new();
static ATOM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum E { A(u8), B { s: String }, C }
trait Shape { fn area(&self) -> usize; fn name(&self) -> String { "shape".to_string() } }
struct Sq(usize);
struct Re(usize, usize);
impl Shape for Sq { fn area(&self) -> usize { self.0 * self.0 } }
impl Shape for Re { fn area(&self) -> usize { self.0 * self.1 } fn name(&self) -> String { format!("re{:>4}|{:<3}|{:^5}|{:03}", self.0, self.1, "x", 7) } }
fn fib<F: Fn(u64) -> u64>(f: &F, n: u64) -> u64 { if n < 2 { f(n) } else { fib(f, n - 1) + fib(f, n - 2) } }
fn may_fail(n: usize) -> Result<usize, Box<dyn std::error::Error>> { let x: usize = format!("{}", n).parse()?; if x > 2 { Err("big".into()) } else { Ok(x + "12".parse::<usize>()?) } }

pub fn go() {
  let s = string(&['a', 'B', ' ', 'é', 'ß', '7', '.', '中'], param(1));
  let n = pick(5);
  match param(0) {
    0 => { // maps and sets
      let mut b = BTreeMap::new();
      for (i, c) in s.chars().enumerate() { b.entry(c).or_insert_with(Vec::new).push(i); }
      for (k, v) in &b { emit(*k as u32, v.len() as u64) }
      if let Some((k, _)) = b.range('b'..).next() { emit(1, *k as u64) }
      b.retain(|k, _| k.is_alphabetic());
      emit(2, b.len() as u64);
      let mut h: HashSet<char> = s.chars().collect();
      let g: HashSet<char> = "a7".chars().collect();
      emit(3, h.intersection(&g).count() as u64);
      h.extend(g);
      let mut v: Vec<_> = h.into_iter().collect(); v.sort_unstable();
      emit_str(&v.iter().collect::<String>());
      let t: BTreeSet<&str> = s.split(' ').collect();
      emit_str(&t.into_iter().collect::<Vec<_>>().join("|"));
      let mut q: VecDeque<char> = s.chars().collect();
      q.rotate_left(q.len() / 2); q.push_front('x'); if let Some(c) = q.pop_back() { emit(4, c as u64) }
      emit_str(&q.iter().rev().collect::<String>());
      let mut heap: BinaryHeap<(usize, char)> = s.chars().map(|c| (c.len_utf8(), c)).collect();
      if let Some((l, c)) = heap.pop() { emit(l as u32, c as u64) }
      let mut hm: HashMap<String, usize> = HashMap::with_capacity(3);
      for w in s.split_whitespace() { *hm.entry(w.to_lowercase()).or_default() += 1 }
      let mut es: Vec<_> = hm.drain().collect(); es.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
      emit_str(&format!("{:?}", es));
    },
    1 => { // strings
      emit_str(&s.replace('a', "xy")); emit_str(&s.replacen("B", "", 1)); emit_str(s.trim_start_matches(|c: char| c == 'a' || c == ' '));
      emit_str(s.trim_end_matches(char::is_numeric)); emit_str(&s.to_uppercase()); emit_str(&s.chars().rev().collect::<String>());
      for (i, p) in s.match_indices('.') { emit(i as u32, p.len() as u64) }
      if let Some((a, b)) = s.split_once(' ') { emit_str(a); emit_str(b) }
      if let Some((a, b)) = s.rsplit_once(char::is_whitespace) { emit_str(a); emit_str(b) }
      for w in s.rsplit('a') { emit_str(w) }
      for w in s.splitn(2, &['a', '.'][..]) { emit_str(w) }
      for w in s.split_inclusive('B') { emit_str(w) }
      for w in s.split_terminator(". ") { emit_str(w) }
      if let Some(w) = s.strip_prefix("aB") { emit_str(w) }
      if let Some(w) = s.strip_suffix('7') { emit_str(w) }
      emit(1, s.bytes().filter(|b| b.is_ascii_punctuation()).count() as u64);
      emit(2, s.char_indices().rev().find(|(_, c)| c.is_uppercase()).map_or(99, |x| x.0) as u64);
      emit(3, s.rfind(|c: char| !c.is_ascii()).unwrap_or(77) as u64);
      emit_str(&s.escape_debug().to_string()); emit_str(&format!("{:?} {s:>8} {0:<6} {0:.2}", s));
      emit(4, s.eq_ignore_ascii_case("AB") as u64); emit(5, s.as_str().cmp("aé") as i8 as u8 as u64);
      let mut t = s.clone(); t.insert(0, 'é'); t.insert_str(0, "zz"); t.pop(); t.retain(|c| c != ' '); if t.len() > 3 { t.drain(..2); } t.truncate(0); t.push_str(&s.repeat(2)); emit_str(&t);
      emit_str(&s.lines().map(|l| l.trim()).collect::<Vec<_>>().concat());
      emit_str(&String::from_utf8_lossy(s.as_bytes())); emit(6, std::str::from_utf8(&s.as_bytes()[..s.len() / 2]).is_ok() as u64);
      let c: Cow<str> = if s.contains('B') { Cow::Owned(s.to_ascii_lowercase()) } else { Cow::Borrowed(&s) }; emit_str(&c);
      emit(7, s.parse::<f64>().map_or(1, |x| x as u64)); emit(8, s.parse::<i32>().unwrap_or(-1) as u32 as u64);
      emit(9, s.chars().map(|c| c.to_digit(16).unwrap_or(3) as u64).sum::<u64>());
      emit(10, s.encode_utf16().count() as u64);
      emit(11, s.chars().all(char::is_alphanumeric) as u64); emit(12, s.is_char_boundary(1) as u64);
      emit(13, s.get(0..2).map_or(0, |x| x.len()) as u64);
      emit_str(&s.chars().flat_map(char::to_lowercase).skip_while(|c| *c == 'a').collect::<String>());
    },
    2 => { // slices and iterators
      let v: Vec<char> = s.chars().collect();
      for w in v.windows(2) { emit(1, (w[0] == w[1]) as u64) }
      for c in v.chunks(2) { emit(2, c.len() as u64) }
      for c in v.rchunks(2) { emit(3, c[0] as u64) }
      let mut w = v.clone(); w.sort_by_key(|c| std::cmp::Reverse(*c)); w.dedup(); emit_str(&w.iter().collect::<String>());
      w.sort(); emit(4, w.binary_search(&'a').unwrap_or_else(|e| e) as u64); emit(5, w.partition_point(|c| *c < 'b') as u64);
      let (a, b): (Vec<char>, Vec<char>) = v.iter().partition(|c| c.is_ascii()); emit(a.len() as u32, b.len() as u64);
      emit(6, v.iter().scan(0u64, |t, c| { *t += *c as u64; Some(*t) }).last().unwrap_or(0));
      emit(7, v.iter().zip(v.iter().skip(1)).filter(|(a, b)| a < b).count() as u64);
      let mut p = v.iter().peekable(); let mut runs = 0; while let Some(c) = p.next() { if p.peek() != Some(&c) { runs += 1 } } emit(8, runs);
      emit(9, v.iter().rposition(|c| *c == 'a').unwrap_or(9) as u64); emit(10, v.iter().max_by_key(|c| c.len_utf8()).map_or(0, |c| *c as u64));
      emit(11, v.iter().step_by(2).fold(7u64, |a, c| a.wrapping_mul(31) ^ *c as u64));
      let mut x = v.clone(); x.reverse(); x.swap_remove(0); let xl = 1.min(x.len()); x.rotate_right(xl); x.extend_from_slice(&v); x.splice(0..1, ['q', 'r']); x.insert(1, 't'); emit_str(&x.into_iter().collect::<String>());
      for g in v.split(|c| *c == ' ') { emit(12, g.len() as u64) }
      if let [first, .., last] = &v[..] { emit(13, (first == last) as u64) }
      if let Some((h, t)) = v.split_first() { emit(14, *h as u64 + t.len() as u64) }
      emit(15, v.concat_len()); emit(16, v.contains(&'é') as u64); emit(17, v.starts_with(&['a']) as u64);
      emit(18, v.iter().copied().min().unwrap_or('z') as u64); emit(19, v.iter().fold(1u32, |a, c| a.wrapping_mul(*c as u32)) as u64 & 0xff);
      let (mut l, r) = (v.clone(), v.clone()); l.append(&mut r.clone()); l.retain_mut(|c| { c.make_ascii_uppercase(); *c != 'A' }); emit_str(&l.iter().collect::<String>());
      emit(20, v.iter().try_fold(0u8, |a, c| a.checked_add(*c as u8)).unwrap_or(1) as u64);
      emit(21, v.chunk_by(|a, b| a == b).count() as u64); emit(22, v.iter().cycle().take(7).filter(|c| **c == 'B').count() as u64);
      emit(23, std::iter::successors(Some(n), |x| x.checked_sub(1)).sum::<usize>() as u64); emit(24, (0..n).flat_map(|i| 0..i).count() as u64);
      emit(25, v.iter().any(|c| matches!(c, '0'..='9')) as u64); emit(26, std::iter::once(1).chain(std::iter::repeat(2).take(n)).sum::<u64>());
      emit(27, v.iter().cmp(['a', 'B'].iter()) as i8 as u8 as u64); let arr: [u64; 3] = std::array::from_fn(|i| i as u64 * n as u64); emit(28, arr.iter().sum());
      emit_str(&v.iter().take_while(|c| **c != ' ').map(|c| c.to_string()).collect::<Vec<String>>().join("-")); let mut un = v.clone(); un.select_nth_unstable(v.len() / 2); emit(29, un[v.len() / 2] as u64);
    },
    3 => { // numbers, floats, big integers
      let x = s.len() as u64 + n as u64;
      let big = (x as u128 * 0x1_0000_0000_0000_0001u128) >> 3; emit(1, big as u64); emit(2, (big / 7) as u64); emit(3, (big % 1000003) as u64);
      emit(4, x.pow(3).leading_zeros() as u64); emit(5, x.count_ones() as u64); emit(6, x.rotate_left(13)); emit(7, x.swap_bytes()); emit(8, (x as i64 - 9).rem_euclid(4) as u64); emit(9, x.abs_diff(5)); emit(10, x.saturating_sub(6)); emit(11, x.isqrt()); emit(12, (x as i32 - 8).signum() as u32 as u64); emit(13, u64::from_str_radix("ff", 16).unwrap() + x.ilog2() as u64);
      emit_str(&format!("{:x} {:#b} {:e} {:?} {}", x, x, x as f64, x as f64 / 3.0, (x as f64).sqrt()));
      emit(14, ((x as f64) * 1.5).round() as u64); emit(15, ((x as f32).floor() as u32) as u64); emit(16, (x as f64).max(3.0).min(6.0) as u64); emit(17, (x as f64 / 2.0).ceil() as u64); emit(18, (x as f64).powi(2) as u64); emit(19, (x as f64).total_cmp(&4.0) as i8 as u8 as u64); emit(20, (x as f64).partial_cmp(&4.0).is_some() as u64); emit(21, x.clamp(3, 5)); emit(22, i128::from(x).pow(2) as u64); emit(23, x.checked_mul(u64::MAX).is_none() as u64); emit(24, u8::try_from(x * 50).unwrap_or(1) as u64); emit(25, x.next_power_of_two()); emit(26, x.div_ceil(3)); emit(27, x.trailing_zeros() as u64);
      emit(28, fib(&|n| n, x)); emit(29, char::from_digit(n as u32, 10).unwrap() as u64); emit(30, char::from_u32(0x100 + x as u32).map_or(0, |c| c as u64)); emit(31, (x as f64).ln().to_bits() >> 40); emit(32, ((x as f64).mul_add(2.0, 0.5)) as u64); emit(33, "1.25e2".parse::<f64>().unwrap() as u64);
    },
    4 => { // traits, sharing, errors, threads' things
      let shapes: Vec<Box<dyn Shape>> = vec![Box::new(Sq(n)), Box::new(Re(n, s.len()))];
      emit(1, shapes.iter().map(|s| s.area()).sum::<usize>() as u64); emit_str(&shapes.iter().map(|s| s.name()).collect::<String>());
      let rc = Rc::new(RefCell::new(vec![1u8])); let w = Rc::downgrade(&rc); { let r2 = Rc::clone(&rc); r2.borrow_mut().push(n as u8); } emit(2, rc.borrow().iter().map(|x| *x as u64).sum()); drop(rc); emit(3, w.upgrade().is_none() as u64);
      let m = Arc::new(Mutex::new(HashMap::new())); { let m2 = Arc::clone(&m); m2.lock().unwrap().insert(s.clone(), n); } emit(4, m.lock().unwrap().get(&s).copied().unwrap_or(0) as u64); let rw = RwLock::new(n); *rw.write().unwrap() += 1; emit(5, *rw.read().unwrap() as u64);
      emit(6, may_fail(n).map_or_else(|e| e.to_string().len() as u64, |x| x as u64)); let r: Result<Vec<usize>, _> = (0..n).map(may_fail).collect(); emit(7, r.is_ok() as u64); let o: Option<Vec<u32>> = s.chars().map(|c| c.to_digit(36)).collect(); emit(8, o.map_or(0, |v| v.len()) as u64);
      TL.with(|t| { t.borrow_mut().push(n as u32); emit(9, t.borrow().len() as u64) }); emit_str(ONCE.get_or_init(|| format!("once{}", 1))); emit(10, ATOM.fetch_add(n + 1, std::sync::atomic::Ordering::SeqCst) as u64 + ATOM.load(std::sync::atomic::Ordering::Relaxed) as u64);
      let c = Cell::new(n); c.set(c.get() + 1); emit(11, c.replace(0) as u64); let mut es = vec![E::B { s: s.clone() }, E::C, E::A(n as u8)]; es.sort(); emit_str(&format!("{:?} {:#?}", es, es[0])); let mut buf = String::new(); write!(buf, "{:5}|{:<5}|{:+}|{:#06x}|{:>w$}", n, "é", n, n, "r", w = n + 3).unwrap(); emit_str(&buf); let mut take = Some(s.clone()); let t = take.take(); emit(12, take.is_none() as u64 + t.as_deref().map_or(0, str::len) as u64); let mut a = 1; let mut b = 2; std::mem::swap(&mut a, &mut b); emit(13, std::mem::replace(&mut a, 5) + a); let bx: Box<[char]> = s.chars().collect(); emit(14, bx.len() as u64); let st: Rc<str> = s.as_str().into(); emit(15, st.len() as u64); let f: Box<dyn FnMut(usize) -> usize> = { let mut t = n; Box::new(move |x| { t += x; t }) }; let mut f = f; f(1); emit(16, f(2) as u64);
      let v = std::panic::Location::caller().line(); let _ = v; let d = std::time::Duration::from_millis(n as u64 * 1500); emit(17, d.as_secs()); let p = std::path::Path::new("/a/b.xhtml"); emit_str(p.extension().unwrap().to_str().unwrap()); emit_str(&p.with_extension("x").display().to_string()); emit_str(&p.join(&s).to_string_lossy()); let os = std::ffi::OsString::from(&s); emit(18, os.len() as u64); emit(19, std::any::type_name::<E>().len() as u64 & 0); let mut it = s.char_indices(); it.next(); emit_str(it.as_str()); emit(20, s.chars().nth(1).is_some_and(|c| c == 'a') as u64); let z: (Vec<_>, Vec<_>) = s.char_indices().unzip(); emit(21, z.0.len() as u64); let lz = std::sync::LazyLock::new(|| 5u64); emit(22, *lz); let lr = std::cell::LazyCell::new(|| n as u64); emit(23, *lr);
    },
    5 => { // regular expressions
      use regex::Regex;
      let r = Regex::new(r"(?i)(?P<w>[a-z]+)|(\d)").unwrap();
      for c in r.captures_iter(&s) { emit_str(c.get(0).unwrap().as_str()); emit(1, c.name("w").map_or(9, |m| m.start()) as u64) }
      emit_str(&r.replace_all(&s, "<$w>")); emit(2, r.is_match(&s) as u64); for m in r.find_iter(&s) { emit(m.start() as u32, m.end() as u64) } for p in Regex::new(r"\s+").unwrap().split(&s) { emit_str(p) }
      emit_str(&r.replace(&s, |c: &regex::Captures| format!("[{}]", &c[0])));
    },
    6 => { // memchr-like paths on long strings
      let t = format!("{}{}{}", "lorem ipsum dolor sit amet ".repeat(8), s, " consectetur".repeat(4));
      emit(1, t.find('7').unwrap_or(0) as u64); emit(2, t.find("aB").unwrap_or(0) as u64); emit(3, t.rfind("é").unwrap_or(0) as u64); emit(4, t.contains("sit a") as u64); emit(5, t.bytes().position(|b| b == b'B').unwrap_or(0) as u64); emit(6, t.matches('.').count() as u64); emit(7, t.chars().count() as u64); emit(8, t.is_ascii() as u64); emit(9, t.as_bytes().iter().rev().position(|b| *b > 127).unwrap_or(0) as u64); emit(10, t.split(", ").count() as u64); emit(11, (t == "x") as u64); emit(12, t.to_lowercase().len() as u64); emit(13, t.char_indices().filter(|(_, c)| c.is_whitespace()).count() as u64); let mut v: Vec<char> = t.chars().collect(); v.sort_unstable(); v.dedup(); emit_str(&v.iter().collect::<String>()); let mut w: Vec<&str> = t.split(' ').collect(); w.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b))); emit_str(w[w.len() - 1]); use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); emit(14, h.finish()); let u: Vec<u16> = t.encode_utf16().collect(); emit_str(&String::from_utf16(&u).unwrap()); emit(15, t.split_ascii_whitespace().map(|w| w.len()).max().unwrap() as u64);
    },
    8 => { // files
      use std::io::{BufRead, Read, Seek, Write};
      let p = format!("{}/a.txt", root());
      std::fs::write(&p, format!("{}\nsecond\n", s)).unwrap(); emit_str(&std::fs::read_to_string(&p).unwrap()); emit(1, std::fs::read(&p).unwrap().len() as u64);
      { let mut f = std::fs::OpenOptions::new().append(true).open(&p).unwrap(); f.write_all(b"third").unwrap(); f.flush().unwrap(); }
      for l in std::io::BufReader::new(std::fs::File::open(&p).unwrap()).lines() { emit_str(&l.unwrap()) }
      let mut v = Vec::new(); std::fs::File::open(&p).unwrap().take(3).read_to_end(&mut v).unwrap(); emit(2, v.len() as u64);
      emit(3, std::fs::File::open(format!("{}x", p)).is_err() as u64);
      let mut w = std::io::BufWriter::new(std::fs::File::create(&p).unwrap()); for i in 0..n { write!(w, "{},", i).unwrap() } drop(w);
      let mut o = String::new(); let mut f = std::fs::File::open(&p).unwrap(); f.read_to_string(&mut o).unwrap(); emit_str(&o); let _ = f.rewind();
      let b = std::io::BufReader::new(std::fs::File::open(&p).unwrap()); for x in b.split(b',') { emit(4, x.unwrap().len() as u64) }
    },
    9 => { // existence, metadata
      let p = format!("{}/a.txt", root()); emit(1, std::path::Path::new(&p).exists() as u64); std::fs::write(&p, &s).unwrap(); emit(2, std::path::Path::new(&p).exists() as u64); emit(3, std::fs::metadata(&p).map_or(7, |m| m.len())); emit(4, std::path::Path::new(&p).is_file() as u64); emit(5, std::path::Path::new(&root()).is_dir() as u64);
    },
    10 => { println!("x{}", s); eprintln!("y{}", n); print!("z"); use std::io::Write; std::io::stdout().flush().unwrap(); let mut o = std::io::stdout().lock(); writeln!(o, "w").unwrap(); writeln!(std::io::stderr(), "w").unwrap(); emit(1, 1); },
    11 => { let t = std::time::Instant::now(); let _ = t.elapsed(); emit(1, 0); let _ = std::time::SystemTime::now(); },
    12 => { let (a, b) = std::sync::mpsc::channel(); a.send(n).unwrap(); emit(1, b.recv().unwrap() as u64); drop(a); emit(2, b.recv().is_err() as u64); },
    13 => { let mut t = 0; std::thread::scope(|sc| { let h = sc.spawn(|| n + 1); t = h.join().unwrap(); }); emit(1, t as u64) },
    14 => { emit(1, std::env::var("NO_SUCH").is_err() as u64); emit(2, std::env::args().count().min(0) as u64); let _ = std::env::temp_dir(); },
    15 => { let r = std::panic::catch_unwind(|| { let n = n; n + 1 }); emit(1, r.is_ok() as u64); },
    18 => { // xpath
      let (d, mut root) = Dom::new("body");
      root.set_attribute("class", "a  b").unwrap();
      for i in 0..3 { let mut e = d.el(&mut root, ["h1", "div", "h"][i]); e.set_attribute("class", ["x y", "ltx_a", " x"][(i + n) % 3]).unwrap(); e.set_attribute("n", &format!("{}", i * 3)).unwrap(); for k in 0..i { let mut c = d.el(&mut e, ["span", "math"][k]); c.append_text(&s).unwrap(); } d.comment(&mut e, "c"); }
      let doc = &d.doc;
      let cx = libxml::xpath::Context::new(doc).unwrap();
      for q in ["//*[string-length(local-name())=2]", "//*[starts-with(local-name(),'h') and contains('123456',substring(local-name(),2,1))]", "//*[substring(local-name(),2)='iv']", "//*[substring-before(@class,' ')='x']", "//*[substring-after(@class,'_')='a']", "//*[translate(@class,'x','z')='z y']", "//*[boolean(@n)]", "//*[number(@n)=3]", "//*[@n mod 2 = 0]", "//*[@n * 2 > 5]", "//*[@n div 3 = 2]", "//*[-@n = -3]", "//*[sum(*)=0]", "//*[namespace-uri()='']", "//*[count(.//*)=0]", "/descendant-or-self::*[local-name(.)='math']", "//*[contains(@class,'x')][last()]", "(//*)[2]", "//span/..", "//*[not(*)]", "//*[@class][position()>1]", "//div/*|//h1", "//text()", "//*[text()]", "//comment()", "//*[.='a']", "//*[normalize-space()='']", "//*[floor(@n)=6]", "//*[self::h1 or self::h]", "//*[parent::*[@n]]", "//*[following-sibling::*]", "//node()", "//@class", "//*[@n='0' or @n='6'][contains(concat(' ',@class,' '),' x ')]", "//*[name()='div']/descendant::node()", "string(//div)", "//*[ancestor::div]", "//*[preceding::*]", "//*[//math]", "//*[@*]", "//*[count(@*)=2]", "//nope", "//*[bad(", "//*[unknown()]", "//*[local-name(..)='div']", "//*[string(@n)>'2']", "//*[@class!='ltx_a']", "//*[not(@class='ltx_a')]", "//*[string-length(@class) <= 2]"] {
        emit(1, match cx.evaluate(q) { Ok(o) => { let v = o.get_readonly_nodes_as_vec(); for x in &v { if x.is_element_node() { emit_str(&x.get_name()) } } o.get_number_of_nodes() as u64 }, Err(_) => 99 });
      }
    },
    16 => { // sorting longer things, ordered floats, big hash maps
      let mut v: Vec<u64> = (0..90u64).map(|i| (i * 7919 + n as u64 * 31) % 97).collect(); let mut w = v.clone(); v.sort(); w.sort_unstable_by(|a, b| b.cmp(a)); w.reverse(); emit(1, (v == w) as u64);
      let mut f: Vec<f64> = v.iter().map(|x| *x as f64 / 3.0).collect(); f.sort_by(|a, b| b.partial_cmp(a).unwrap()); emit_str(&format!("{:?}", &f[..3])); emit(2, f.iter().cloned().fold(f64::NEG_INFINITY, f64::max) as u64); emit(3, f.iter().sum::<f64>() as u64);
      let m: HashMap<u64, String> = v.iter().map(|x| (*x, format!("{}{}", s, x))).collect(); let mut k: Vec<_> = m.keys().copied().collect(); k.sort_by_key(|x| std::cmp::Reverse(*x)); emit(4, k.len() as u64); emit_str(&m[&k[n]]); let b: BTreeMap<String, u64> = m.into_iter().map(|(a, b)| (b, a)).collect(); emit_str(b.keys().next_back().unwrap()); emit(5, b.values().rev().take(n).sum::<u64>()); let (l, r): (BTreeMap<_, _>, BTreeMap<_, _>) = b.into_iter().partition(|(_, v)| v % 2 == 0); emit(6, l.len() as u64 * 100 + r.len() as u64);
      let mut vs: Vec<String> = (0..30).map(|i| format!("{}{}", s, i * 37 % 11)).collect(); vs.sort(); vs.dedup(); emit_str(&vs.join(",")); let mut q = (0..20).collect::<VecDeque<_>>(); q.retain(|x| x % 3 != n % 3); q.make_contiguous().reverse(); q.extend(0..n); emit(7, q.iter().fold(0, |a, x| a * 3 % 1000 + x) as u64); q.drain(1..3); q.truncate(5); emit(8, q.iter().sum::<usize>() as u64);
    },
    _ => {
      // serializing writers and readers in memory
      use std::io::{BufRead, BufReader, BufWriter, Cursor, Read, Write};
      let mut w = BufWriter::with_capacity(8, Vec::new()); writeln!(w, "{}", s).unwrap(); w.write_all(b"x\ny").unwrap(); w.flush().unwrap(); let v = w.into_inner().unwrap(); emit(1, v.len() as u64); for l in BufReader::new(&v[..]).lines() { emit_str(&l.unwrap()) } let mut c = Cursor::new(v); let mut o = String::new(); c.read_to_string(&mut o).unwrap(); emit_str(&o); let mut it = o.split('\n').map(str::to_owned).collect::<LinkedList<_>>(); it.push_front(String::new()); emit(2, it.len() as u64);
    },
  }
}
trait CL { fn concat_len(&self) -> u64; }
impl CL for Vec<char> { fn concat_len(&self) -> u64 { self.iter().map(|c| c.len_utf8() as u64).sum() } }
