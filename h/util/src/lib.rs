//! Symbolic inputs and reference functions shared by the harness packages.
pub use symrt::*;
pub use yaserde::{YaDeserialize, YaSerialize};

// ---------------------------------------------------------------- symbolic values
fn s(v: Vec<u8>) -> String {
  // the callers build valid UTF-8
  unsafe { String::from_utf8_unchecked(v) }
}
/// N visible ASCII characters (0x21..=0x7e), markup included.
pub fn vis<const N: usize>(name: &str) -> String {
  let b = bytes::<N>(name);
  for c in b {
    assume(c > b' ' && c < 127);
  }
  s(b.to_vec())
}
/// N characters of which the first and last are visible, those between may be blanks, tabs and line ends too.
pub fn txt<const N: usize>(name: &str) -> String {
  let b = bytes::<N>(name);
  for (i, c) in b.iter().enumerate() {
    let v = *c > b' ' && *c < 127;
    let w = *c == b' ' || *c == b'\t' || *c == b'\n' || *c == b'\r';
    assume(v || (i > 0 && i + 1 < N && w));
  }
  s(b.to_vec())
}
/// N characters, each any ASCII XML character including whitespace.
pub fn any<const N: usize>(name: &str) -> String {
  let b = bytes::<N>(name);
  for c in b {
    assume((c >= b' ' && c < 128) || c == b'\t' || c == b'\n' || c == b'\r');
  }
  s(b.to_vec())
}
/// One symbolic non-ASCII XML character: every code point of 2, 3 or 4 bytes (len = 2, 3, 4).
pub fn uni(name: &str, len: u8) -> String {
  let cont = |c: u8| c & 0xc0 == 0x80;
  match len {
    2 => {
      let b = bytes::<2>(name);
      // U+0080..U+009F are C1 controls: allowed in XML 1.0 but left out
      assume(b[0] >= 0xc2 && b[0] <= 0xdf && cont(b[1]) && !(b[0] == 0xc2 && b[1] < 0xa1));
      s(b.to_vec())
    }
    3 => {
      let b = bytes::<3>(name);
      assume(b[0] >= 0xe0 && b[0] <= 0xef && cont(b[1]) && cont(b[2]));
      assume(b[0] != 0xe0 || b[1] >= 0xa0);
      assume(b[0] != 0xed || b[1] < 0xa0);
      assume(b[0] != 0xef || b[1] < 0xb7); // away from U+FDD0.. and U+FFFE
      assume(b[0] != 0xe1 && b[0] != 0xe2 && b[0] != 0xe3); // unicode blanks U+1680, U+2000.., U+3000
      s(b.to_vec())
    }
    _ => {
      let b = bytes::<4>(name);
      assume(b[0] == 0xf0 && b[1] >= 0x90 && cont(b[1]) && cont(b[2]) && cont(b[3]));
      s(b.to_vec())
    }
  }
}
/// A string of 0..=N visible characters (length forked).
pub fn upto<const N: usize>(name: &str) -> String {
  let n = choice("len", N as u8 + 1) as usize;
  let b = bytes::<N>(name);
  for (i, c) in b.iter().enumerate() {
    assume(if i < n { *c > b' ' && *c < 127 } else { *c == 0 });
  }
  s(b[..n].to_vec())
}
/// An XML name: a letter then N-1 letters or digits.
pub fn name<const N: usize>(n: &str) -> String {
  let b = bytes::<N>(n);
  for (i, c) in b.iter().enumerate() {
    let l = (*c >= b'a' && *c <= b'z') || (*c >= b'A' && *c <= b'Z');
    assume(l || (i > 0 && *c >= b'0' && *c <= b'9'));
  }
  s(b.to_vec())
}
/// A digit 0..=9 as text and value.
pub fn digit(n: &str) -> (char, u8) {
  let b = byte(n);
  assume(b.is_ascii_digit());
  (b as char, b - b'0')
}
/// Symbolic presence.
pub fn opt<T>(n: &str, v: impl FnOnce() -> T) -> Option<T> {
  if flag(n) { Some(v()) } else { None }
}
/// 0..=max items.
pub fn list<T>(n: &str, max: u8, mut v: impl FnMut() -> T) -> Vec<T> {
  let k = choice(n, max + 1);
  (0..k).map(|_| v()).collect()
}
/// One of the given values (forked).
pub fn pick<T: Copy>(n: &str, v: &[T]) -> T {
  v[choice(n, v.len() as u8) as usize]
}
// Words, names, sizes and numbers that the current source of yaserde mentions (tools/dict.py), beside some well-known ones.
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/dict.rs"));
pub fn word(n: &str) -> String { pick(n, WORDS).into() }
pub fn wname(n: &str) -> String { pick(n, NAMES).into() }
pub fn size(n: &str) -> usize { pick(n, SIZES) }
pub fn number(n: &str) -> u64 { pick(n, NUMBERS) }
pub fn bool_(n: &str) -> bool {
  byte(n) & 1 == 1
}
macro_rules! ints {
  ($($f:ident $t:ty),*) => { $(
    /// Windows of 16 values at the extremes and at every digit-count change, all values inside symbolic.
    pub fn $f(n: &str) -> $t {
      const B: &[$t] = &[<$t>::MIN, <$t>::MAX - 15, 0, <$t>::MAX / 2 - 7, <$t>::MAX / 10 - 7, <$t>::MIN / 10 ];
      let base = pick("base", B);
      let off = below(n, 16);
      base.wrapping_add(off as $t)
    } )* };
}
ints!(i8_ i8, u8_ u8, i16_ i16, u16_ u16, i32_ i32, u32_ u32, i64_ i64, u64_ u64);
pub const F32: &[f32] = &[0.0, -0.0, 1.5, -0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, 1e-45, 16777216.0, 0.1, 3.4e10];
pub const F64: &[f64] = &[0.0, -0.0, 1.5, -0.1, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 9007199254740993.0, 0.1, 1e21, 16777217.0];
pub fn f32_(n: &str) -> f32 { pick(n, F32) }
pub fn f64_(n: &str) -> f64 { pick(n, F64) }

// ---------------------------------------------------------------- the code under test
pub fn ser<T: YaSerialize>(v: &T) -> String {
  match yaserde::ser::to_string(v) {
    Ok(s) => {
      observe(s.as_bytes());
      s
    }
    Err(_) => violation("serialization failed"),
  }
}
pub fn de<T: YaDeserialize>(s: &str) -> Result<T, String> {
  yaserde::de::from_str::<T>(s)
}
pub fn must<T: YaDeserialize>(s: &str) -> T {
  match de::<T>(s) {
    Ok(v) => v,
    Err(_) => violation("a document of this type was refused"),
  }
}
/// Serialize, read back, compare.
pub fn rt<T: YaSerialize + YaDeserialize + PartialEq>(v: T) {
  let s = ser(&v);
  match de::<T>(&s) {
    Ok(w) => check!(w == v, "value changed in a round trip"),
    Err(_) => violation("own output refused"),
  }
  cover(0);
}
/// The document read is exactly this value.
pub fn reads<T: YaDeserialize + PartialEq>(doc: &str, v: &T) {
  observe(doc.as_bytes());
  match de::<T>(doc) {
    Ok(w) => check!(w == *v, "value read differs from the document"),
    Err(_) => violation("a document of this type was refused"),
  }
  cover(0);
}
pub fn refused<T: YaDeserialize>(doc: &str) {
  observe(doc.as_bytes());
  check!(de::<T>(doc).is_err(), "a document that must be refused was read");
  cover(0);
}
/// The value is written as exactly this document.
pub fn writes<T: YaSerialize>(v: &T, doc: &str) {
  let s = ser(v);
  observe(doc.as_bytes());
  check!(s == doc, "output is not the prescribed document");
  cover(0);
}

// ---------------------------------------------------------------- reference rendering
pub const DECL: &str = "<?xml version=\"1.0\" encoding=\"utf-8\"?>";
pub fn doc(body: &str) -> String {
  [DECL, body].concat()
}
/// Character data escaped as an XML writer must.
pub fn esc(v: &str) -> String {
  let mut o = String::new();
  for c in v.chars() {
    match c {
      '<' => o.push_str("&lt;"),
      '>' => o.push_str("&gt;"),
      '&' => o.push_str("&amp;"),
      c => o.push(c),
    }
  }
  o
}
/// Attribute value escaped as an XML writer must.
pub fn esca(v: &str) -> String {
  let mut o = String::new();
  for c in v.chars() {
    match c {
      '<' => o.push_str("&lt;"),
      '>' => o.push_str("&gt;"),
      '&' => o.push_str("&amp;"),
      '"' => o.push_str("&quot;"),
      '\'' => o.push_str("&apos;"),
      '\n' => o.push_str("&#xA;"),
      '\r' => o.push_str("&#xD;"),
      c => o.push(c),
    }
  }
  o
}
/// An element with text content (an empty text still gets a closing tag).
pub fn el(name: &str, content: &str) -> String {
  ["<", name, ">", content, "</", name, ">"].concat()
}
#[macro_export]
macro_rules! cat { ($($e:expr),* $(,)?) => { { let mut s = String::new(); $( s.push_str(&$e[..]); )* s } } }
/// Decimal notation, written independently of core::fmt.
pub fn dec(v: i128) -> String {
  let mut d: Vec<u8> = Vec::new();
  let mut n = v.unsigned_abs();
  loop {
    d.push(b'0' + (n % 10) as u8);
    n /= 10;
    if n == 0 { break }
  }
  if v < 0 { d.push(b'-') }
  d.reverse();
  String::from_utf8(d).unwrap()
}

// ---------------------------------------------------------------- documents as trees, for reference readers
#[derive(Clone, Debug)]
pub enum Kid { N(Node), T(String),
  /// markup as it stands in the document, and the character data it denotes
  X(String, String) }
/// An element as the XML recommendation sees it: names, decoded attribute values, decoded character data, children in order.
#[derive(Clone, Debug)]
pub struct Node { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Kid> }
impl Node {
  pub fn new(name: &str) -> Node { Node { name: name.into(), attrs: vec![], kids: vec![] } }
  pub fn attr(mut self, n: &str, v: &str) -> Node { self.attrs.push((n.into(), v.into())); self }
  pub fn kid(mut self, n: Node) -> Node { self.kids.push(Kid::N(n)); self }
  pub fn text(mut self, t: &str) -> Node { self.kids.push(Kid::T(t.into())); self }
  pub fn raw(mut self, x: &str, t: &str) -> Node { self.kids.push(Kid::X(x.into(), t.into())); self }
  pub fn xml(&self) -> String { let mut o = String::new(); self.put(&mut o); o }
  fn put(&self, o: &mut String) {
    o.push('<'); o.push_str(&self.name);
    for (n, v) in &self.attrs { o.push(' '); o.push_str(n); o.push_str("=\""); o.push_str(&esca(v)); o.push('"') }
    if self.kids.is_empty() { o.push_str("/>"); return }
    o.push('>');
    for k in &self.kids { match k { Kid::N(n) => n.put(o), Kid::T(t) => o.push_str(&esc(t)), Kid::X(x, _) => o.push_str(x) } }
    o.push_str("</"); o.push_str(&self.name); o.push('>')
  }
  /// All elements directly inside with this name.
  pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Node> + 'a { self.kids.iter().filter_map(move |k| match k { Kid::N(c) if c.name == n => Some(c), _ => None }) }
  pub fn get(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|(a, _)| a == n).map(|(_, v)| &v[..]) }
  /// The character data of an element without child elements.
  pub fn plain(&self) -> Option<String> { let mut s = String::new(); for k in &self.kids { match k { Kid::T(t) | Kid::X(_, t) => s.push_str(t), Kid::N(_) => return None } } Some(s) }
  /// The character data directly inside.
  pub fn own_text(&self) -> String { let mut s = String::new(); for k in &self.kids { if let Kid::T(t) | Kid::X(_, t) = k { s.push_str(t) } } s }
  /// The last child of this name with plain content that `f` understands.
  pub fn last<T>(&self, n: &str, f: impl Fn(&str) -> Option<T>) -> Option<T> { let mut r = None; for c in self.all(n) { if let Some(v) = c.plain().and_then(|p| f(&p)) { r = Some(v) } } r }
  /// Every such child, in order.
  pub fn each<T>(&self, n: &str, f: impl Fn(&str) -> Option<T>) -> Vec<T> { self.all(n).filter_map(|c| c.plain().and_then(|p| f(&p))).collect() }
}
/// A tree from a shape: `(` opens an element with the next symbolic one-letter name, `)` closes it, `d` is a symbolic digit as text,
/// `t` the text "t", a capital letter an element of that fixed (lower-case) name: `A(...)`. `@` an attribute of a symbolic name and digit value.
pub fn shape(s: &str) -> Node {
  let mut st: Vec<Node> = vec![]; let b = s.as_bytes(); let mut i = 0; let mut done = None;
  while i < b.len() {
    match b[i] {
      b'(' => st.push(Node::new(&name::<1>("name"))),
      b')' => { let n = st.pop().unwrap(); match st.last_mut() { Some(p) => p.kids.push(Kid::N(n)), None => done = Some(n) } }
      b'd' => { let d = digit("d").0.to_string(); st.last_mut().unwrap().kids.push(Kid::T(d)) }
      b't' => st.last_mut().unwrap().kids.push(Kid::T("t".into())),
      b'@' => { let n = name::<1>("attr"); let d = digit("av").0.to_string(); let a = &mut st.last_mut().unwrap().attrs; for (m, _) in a.iter() { assume(*m != n) } a.push((n, d)) }
      b'=' => { let d = digit("av").0.to_string(); i += 1; st.last_mut().unwrap().attrs.push(((b[i] as char).to_string(), d)) }
      c => { st.push(Node::new(&(c as char).to_ascii_lowercase().to_string())); i += 1 }
    }
    i += 1;
  }
  done.unwrap()
}
pub fn num(s: &str) -> Option<u8> { let b = s.as_bytes(); if b.len() == 1 && b[0] >= b'0' && b[0] <= b'9' { Some(b[0] - b'0') } else { None } }
pub fn string(s: &str) -> Option<String> { Some(s.into()) }
/// The value read from the document of this tree is the one the reference reading gives; both refuse, or agree.
pub fn agrees<T: YaDeserialize + PartialEq>(n: &Node, want: Option<T>) {
  let x = n.xml();
  observe(x.as_bytes());
  match (de::<T>(&x), want) {
    (Ok(a), Some(b)) => check!(a == b, "value read differs from the document"),
    (Err(_), None) => {}
    (Ok(_), None) => violation("a document that must be refused was read"),
    (Err(_), Some(_)) => violation("a document of this type was refused"),
  }
  cover(0);
}
/// Any tree of n elements below a root element, names symbolic, a symbolic digit in every leaf.
pub fn tree(n: u8) -> Node {
  let mut s = String::from("("); let mut depth = 1u8; let mut leaf = false;
  for _ in 0..n { let up = choice("up", depth); for i in 0..up { if i == 0 && leaf { s.push('d') } s.push(')'); leaf = false } depth -= up; s.push('('); depth += 1; leaf = true }
  if leaf { s.push('d') } for _ in 0..depth { s.push(')') }
  shape(&s)
}
