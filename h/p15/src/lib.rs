use std::io::{Error, ErrorKind, Read};
use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: Option<String>, i: Option<i32>, s: Option<String>, v: Vec<u8>, p: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Part), D(Vec<i16>), E(Option<Fl>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Opt { a: Option<String>, b: Vec<String>, c: Option<Leaf>, d: Vec<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Fe, z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, B(String), C(Leaf) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<String>, #[yaserde(prefix = "n", attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Num { a: i8, b: u64, c: f64, d: bool, #[yaserde(attribute = true)] e: i32 }
/// Delivers at most `step` bytes per call, `first` in the first call; after `stop` bytes the stream fails or ends.
struct Src<'a> { d: &'a [u8], pos: usize, first: usize, step: usize, stop: usize, how: u8, odd: bool, failed: bool }
impl<'a> Read for Src<'a> {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if b.is_empty() { return Ok(0) }
    if self.how == 4 { self.odd = !self.odd; if self.odd { return Err(Error::from(ErrorKind::Interrupted)) } }
    if self.pos >= self.stop { self.failed = true; return match self.how { 0 => Err(Error::from(ErrorKind::Other)), 1 => Err(Error::from(ErrorKind::WouldBlock)), 2 => Err(Error::from(ErrorKind::UnexpectedEof)), 3 => Err(Error::new(ErrorKind::ConnectionReset, "gone")), _ => Ok(0) } }
    let want = if self.pos == 0 { self.first } else { self.step };
    let n = want.min(b.len()).min(self.stop - self.pos).min(self.d.len() - self.pos); b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]); self.pos += n; Ok(n)
  }
}
fn src(d: &[u8]) -> Src<'_> { Src { d, pos: 0, first: usize::MAX, step: usize::MAX, stop: usize::MAX, how: 5, odd: false, failed: false } }
/// The same result from memory and from the stream.
fn split<T: YaDeserialize + PartialEq>(d: &[u8]) {
  observe(d);
  let whole = yaserde::de::from_reader::<_, T>(d);
  if let Ok(t) = std::str::from_utf8(d) { check!(de::<T>(t) == whole, "a string is read differently from its bytes") }
  let mut r = src(d); r.how = 5;
  match choice("mode", 3) { 0 => { let at = choice("at", d.len().min(250) as u8) as usize; r.first = at.max(1); } 1 => { r.first = 1; r.step = 1 + choice("step", 5) as usize } _ => { r.first = 3; r.step = pick("step", &[7usize, 16, 64]) } }
  let parts = yaserde::de::from_reader::<_, T>(&mut r);
  check!(whole.is_ok() == parts.is_ok(), "the result depends on how the bytes arrive");
  if let (Ok(a), Ok(b)) = (&whole, &parts) { check!(a == b, "the result depends on how the bytes arrive") }
  if let (Err(a), Err(b)) = (&whole, &parts) { check!(a == b, "the error depends on how the bytes arrive") }
  cover(0)
}
/// The stream fails before the root element is closed.
fn fail<T: YaDeserialize>(d: &[u8]) {
  observe(d); let at = choice("stop", d.len() as u8) as usize; let mut r = src(d); r.stop = at; r.how = choice("how", 5); if r.how == 4 { r.how = 6 } r.step = if flag("bytewise") { 1 } else { usize::MAX };
  check!(yaserde::de::from_reader::<_, T>(&mut r).is_err(), "a value was returned although the stream failed before the end"); check!(r.failed, "the stream was not read to where it fails"); cover(0)
}
fn both<T: YaDeserialize + PartialEq>(d: &str) { if flag("fail") { fail::<T>(d.as_bytes()) } else { split::<T>(d.as_bytes()) } }
const SINK: &str = "<Sink a=\"1\"><i>3</i><s>xy</s><v>4</v><p k=\"6\">t&amp;u</p><l k=\"7\">u</l><e><B>y</B></e><w></w><z>8</z><q><i>9</i></q></Sink>";
fn put(d: &str, c: &[u8]) -> Vec<u8> { let (a, z) = d.split_once('@').unwrap(); [a.as_bytes(), c, z.as_bytes()].concat() }
harnesses! {
  fn q_sink() { both::<Sink>(SINK) }
  fn q_opt() { both::<Opt>("<?xml version=\"1.0\"?>\n<Opt><a>1</a><b>2</b><!-- c --><b/><c><s>&lt;3</s></c><d/><d><s><![CDATA[4]]></s></d></Opt>") }
  fn q_enum() { match choice("t", 5) { 0 => both::<Ev>("<Ev>A</Ev>"), 1 => both::<Ev>("<Ev><B>xy</B></Ev>"), 2 => both::<Ev>("<Ev><C k=\"1\">2</C></Ev>"), 3 => both::<Ev>("<Ev><D>1</D><D>-2</D></Ev>"), _ => both::<Ev>("<Ev><E><w>1</w></E></Ev>") } }
  fn q_flat() { both::<Ff>("<Ff><a>1</a><B>x</B><z>2</z></Ff>") }
  fn q_ns() { both::<Ns>("<n:Ns xmlns:n='ab' n:k='2'><n:s>1</n:s></n:Ns>") }
  fn q_tag() { both::<Tg>("<Tg kind='B'></Tg>") }
  fn q_num() { both::<Num>("<Num e='-7'><a>12</a><b>345</b><c>6.5</c><d>true</d></Num>") }
  fn q_uni() { let n = choice("len", 3) + 2; let u = uni("u", n); let d = put("<Leaf><s>a@b</s></Leaf>", u.as_bytes()); if flag("fail") { fail::<Leaf>(&d) } else { split::<Leaf>(&d) } }
  fn q_uni_attr() { let n = choice("len", 3) + 2; let u = uni("u", n); let d = put("<Part k='1'>@</Part>", u.as_bytes()); split::<Part>(&d) }
  fn q_bytes_text() { let b = bytes::<2>("b"); split::<Leaf>(&put("<Leaf><s>a@b</s></Leaf>", &b)) }
  fn q_bytes_ref() { let b = bytes::<2>("b"); split::<Leaf>(&put("<Leaf><s>a&@;b</s></Leaf>", &b)) }
  fn q_bytes_tag() { let b = bytes::<2>("b"); split::<Leaf>(&put("<Leaf><@s>1</s></Leaf>", &b)) }
  fn q_bytes_attr() { let b = bytes::<2>("b"); split::<Part>(&put("<Part k='@'>x</Part>", &b)) }
  fn q_bytes_prolog() { let b = bytes::<2>("b"); split::<Leaf>(&put("@<Leaf><s>1</s></Leaf>", &b)) }
  fn q_bytes_around() { let b = any::<1>("b"); let p = pick("p", &["@<?xml version='1.0'?><Leaf><s>1</s></Leaf>", "<?xml version='1.0'?>@<Leaf><s>1</s></Leaf>", "@<Leaf><s>1</s></Leaf>", "<Leaf><s>1</s></Leaf>@", "<Leaf>@<s>1</s></Leaf>", "<Leaf><s>@1</s></Leaf>", "<Leaf><s>1@</s></Leaf>", "<Leaf><s>@</s></Leaf>"]); split::<Leaf>(&put(p, b.as_bytes())) }
  fn q_around() { let b = pick("b", &["", "\u{feff}", " ", "\n", "\t\r\n", "\0", "\u{a0}", "x", "<", "<!-- c -->"]); let p = pick("p", &["@<?xml version='1.0'?><Leaf><s>1</s></Leaf>", "@<Leaf><s>1</s></Leaf>", "<Leaf><s>1</s></Leaf>@", "<Leaf><s>1</s></Leaf>\n@", "@", "<Leaf>@", "<?xml version='1.0'?>@"]); split::<Leaf>(&put(p, b.as_bytes())) }
  fn q_bytes_cdata() { let b = bytes::<2>("b"); split::<Leaf>(&put("<Leaf><s><![CDATA[@]]></s></Leaf>", &b)) }
  fn q_text() { let s = txt::<3>("s"); split::<Leaf>(&put("<Leaf><s>@</s></Leaf>", esc(&s).as_bytes())) }
  fn q_fail_text() { let s = vis::<2>("s"); fail::<Leaf>(&put("<Leaf><s>@</s></Leaf>", esc(&s).as_bytes())) }
  fn q_fail_after() { // a failure right after the closing tag of the root is not before it
    let d = b"<Leaf><s>1</s></Leaf>"; let mut r = src(d); r.stop = d.len(); r.how = 0; let v = yaserde::de::from_reader::<_, Leaf>(&mut r); if let Ok(v) = v { check!(v.s.as_deref() == Some("1"), "value read differs") } cover(0) }
  fn q_own() { let v = Sink { a: Some(any::<1>("a")), i: Some(3), s: Some(vis::<1>("s")), v: vec![1], p: None, l: vec![], e: Ev::A, x: Fl { w: None, z: None } }; let d = ser(&v); let mut r = src(d.as_bytes()); r.first = choice("at", d.len() as u8) as usize; if r.first == 0 { r.first = 1; r.step = 1 } check!(yaserde::de::from_reader::<_, Sink>(&mut r) == Ok(v), "value changed in a round trip through a stream"); cover(0) }
  fn q_interrupt() { let d = pick("d", &["<Leaf><s>12</s></Leaf>", "<Leaf><s/></Leaf>"]); let mut r = src(d.as_bytes()); r.how = 4; r.first = 1; r.step = pick("step", &[1usize, 4]); match yaserde::de::from_reader::<_, Leaf>(&mut r) { Ok(v) => check!(Ok(v) == de::<Leaf>(d), "the result depends on how the bytes arrive"), Err(_) => {} } cover(0) }
  fn q_long() { let n = pick("n", &[20usize, 90]); let d = cat!("<Opt>", "<b>xyz&amp;</b>".repeat(n), "<a>", "t".repeat(n * 3), "</a></Opt>"); match choice("m", 3) { 0 => { let mut r = src(d.as_bytes()); r.step = pick("step", &[1usize, 2, 13, 100, 127, 128, 129, 255, 256]); r.first = r.step; check!(yaserde::de::from_reader::<_, Opt>(&mut r) == de::<Opt>(&d), "the result depends on how the bytes arrive") } 1 => { let mut r = src(d.as_bytes()); r.stop = d.len() - 1 - choice("stop", 250) as usize; r.how = 0; check!(yaserde::de::from_reader::<_, Opt>(&mut r).is_err(), "a value was returned although the stream failed before the end") } _ => { let mut r = src(d.as_bytes()); r.stop = choice("stop", 250) as usize; r.how = 1; check!(yaserde::de::from_reader::<_, Opt>(&mut r).is_err(), "a value was returned although the stream failed before the end") } } cover(0) }
  fn q_deserializer() { // the public Deserializer over a stream is the same reading
    let d = SINK.as_bytes(); let mut r = src(d); r.first = choice("at", d.len() as u8) as usize; if r.first == 0 { r.first = 1; r.step = 1 } let mut z = yaserde::de::Deserializer::new_from_reader(&mut r); let v = <Sink as YaDeserialize>::deserialize(&mut z); check!(v == de::<Sink>(SINK), "the result depends on how the bytes arrive"); cover(0) }
}
