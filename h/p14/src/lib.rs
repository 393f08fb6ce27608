use std::io::{Error, ErrorKind, Write};
use util::*;
use yaserde::ser::{serialize_with_writer, Config};
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: String, #[yaserde(attribute = true)] n: Option<i8>, i: i32, s: Option<String>, v: Vec<u8>, b: Vec<String>, f: f64, p: Part, o: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl, #[yaserde(cdata = true)] c: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: u8, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: bool, #[yaserde(attribute = true)] q: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Part), D(Vec<i16>), E(Option<Fl>), F(Vec<Part>), G { x: u8, y: Option<Part>, #[yaserde(rename = "zz")] z: String }, H(bool), I(Option<u32>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { t: Tg, e: Ev, o: Option<Ev>, v: Vec<Ev>, #[yaserde(attribute = true)] u: Un, #[yaserde(flatten = true)] f: Ev }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: String, #[yaserde(prefix = "n")] l: Vec<NsIn> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n", attribute = true)] k: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Emp { }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Df { #[yaserde(default = "ds")] a: String, #[yaserde(skip_serializing_if = "no")] b: Option<String>, #[yaserde(skip_serializing = true)] c: u8, t: Option<Emp> }
impl Df { fn no(&self, v: &Option<String>) -> bool { v.is_none() } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Num { a: i8, b: u16, c: i64, d: bool, e: f32, g: Option<bool>, h: Vec<i16>, i: Option<u64>, j: Vec<f64>, k: Option<f32> }
fn ds() -> String { "d".into() }
/// A sink that accepts `room` bytes, at most `step` of them per call, and then fails every call.
struct Bad { got: Vec<u8>, room: usize, step: usize, how: u8, failed: bool, hiccup: bool }
impl Write for Bad {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if b.is_empty() { return Ok(0) }
    if self.hiccup { self.hiccup = false; return Err(Error::from(ErrorKind::Interrupted)) }
    if self.got.len() >= self.room { self.failed = true; return match self.how { 0 => Err(Error::from(ErrorKind::Other)), 1 => Ok(0), 2 => Err(Error::new(ErrorKind::BrokenPipe, "gone")), _ => Err(Error::from(ErrorKind::WouldBlock)) } }
    let n = b.len().min(self.step).min(self.room - self.got.len()); self.got.extend_from_slice(&b[..n]); self.hiccup = self.how == 4; Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A sink that fails exactly one call, wherever it comes, and accepts all others.
struct Once { got: Vec<u8>, calls: usize, fail_at: usize, failed: bool }
impl Write for Once {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.is_empty() { return Ok(0) } let c = self.calls; self.calls += 1; if c == self.fail_at { self.failed = true; return Err(Error::from(ErrorKind::Other)) } self.got.extend_from_slice(b); Ok(b.len()) }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A sink that keeps what it was given outside the writer, so a failed run can still be looked at.
struct Shared<'a, W: Write>(&'a mut W);
impl<'a, W: Write> Write for Shared<'a, W> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) } fn flush(&mut self) -> std::io::Result<()> { self.0.flush() } }
fn judge(ok: bool, failed: bool, got: &[u8], full: &[u8]) {
  observe(got); observe(&[ok as u8]);
  if ok { check!(!failed, "success reported although the sink failed"); check!(got == full, "success reported although the sink did not get the whole document") }
  else { check!(failed, "failure reported although the sink accepted everything"); check!(full.starts_with(got), "what the sink accepted is not the beginning of the document") }
  cover(0)
}
fn once<T: YaSerialize>(v: &T) {
  let full = ser(v).into_bytes();
  // the number of calls of an unhindered run bounds the choice of the failing one
  let mut count = Once { got: vec![], calls: 0, fail_at: usize::MAX, failed: false };
  check!(serialize_with_writer(v, Shared(&mut count), &Config::default()).is_ok(), "serialization failed");
  check!(count.got == full, "the sink did not get the document");
  let n = count.calls; let hi = if n > 200 { 200 } else { n };
  let mut w = Once { got: vec![], calls: 0, fail_at: concretize(below("fail_at", hi as u8 + 1) as u64) as usize, failed: false };
  let r = serialize_with_writer(v, Shared(&mut w), &Config::default()).is_ok();
  check!(r != w.failed, "a failing write of the sink was not reported, or reported without one"); observe(&w.got); cover(0)
}
fn room<T: YaSerialize>(v: &T, step: usize, how: u8) { let full = ser(v).into_bytes(); let r = choice("room", full.len().min(254) as u8 + 1) as usize; let mut w = Bad { got: vec![], room: r, step, how, failed: false, hiccup: false }; let ok = serialize_with_writer(v, Shared(&mut w), &Config::default()).is_ok(); judge(ok, w.failed, &w.got, &full) }
fn all<T: YaSerialize>(v: &T) { match choice("mode", 5) { 0 => once(v), 1 => room(v, usize::MAX, 0), 2 => room(v, 1, 1), 3 => room(v, 7, 2), _ => { let full = ser(v).into_bytes(); let mut w = Bad { got: vec![], room: usize::MAX, step: 3, how: 4, failed: false, hiccup: true }; let ok = serialize_with_writer(v, Shared(&mut w), &Config::default()).is_ok(); judge(ok, false, &w.got, &full); check!(ok, "failure reported although the sink accepted everything") } } }
fn st() -> String { vis::<1>("s") }
fn part() -> Part { Part { k: 3, t: "t".into() } }
fn ev(k: u8) -> Ev { match k { 0 => Ev::A, 1 => Ev::B(st()), 2 => Ev::C(Part { k: 1, t: st() }), 3 => Ev::D(vec![1, -2]), 4 => Ev::E(Some(Fl { w: Some(st()), z: true, q: Some(1) })), 5 => Ev::F(vec![part(), part()]), 6 => Ev::G { x: 1, y: Some(part()), z: st() }, 7 => Ev::H(true), _ => Ev::I(Some(4)) } }
#[derive(YaSerialize, PartialEq, Debug)]
enum Sv { V { o: Option<String>, p: Option<Part>, v: Vec<u8>, w: Vec<Part>, u: Un, s: String }, W { b: bool } }
#[derive(YaSerialize, PartialEq, Debug)]
struct Sh { a: usize, e: Sv, c: Vec<char>, v: Vec<Option<u8>>, w: Vec<Option<Part>>, o: Option<Vec<String>>, #[yaserde(attribute = true)] l: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ot { #[yaserde(text = true)] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Fv { #[default] U, #[yaserde(flatten = true)] Part(Part), #[yaserde(flatten = true)] Fl(Fl) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hf { e: Fv, #[yaserde(flatten = true)] f: Fv, w: Wr }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug)]
struct Wr(u8);
harnesses! {
  fn q_sink() { all(&Sink { a: st(), n: Some(-1), i: 2, s: Some("s".into()), v: vec![1], b: vec!["".into(), "b".into()], f: 0.5, p: part(), o: Some(part()), l: vec![part()], e: Ev::A, x: Fl { w: Some("w".into()), z: true, q: Some(2) }, c: "c".into() }) }
  fn q_part() { all(&Part { k: byte("k") & 15, t: vis::<2>("t") }) }
  fn q_enum() { all(&ev(choice("v", 9))) }
  fn q_enum_in() { all(&Ht { t: Tg::B, e: ev(choice("v", 9)), o: None, v: vec![], u: Un::B, f: Ev::B("f".into()) }) }
  fn q_enum_in2() { let k = choice("v", 9); all(&Ht { t: Tg::A, e: Ev::A, o: Some(ev(k)), v: vec![Ev::H(false)], u: Un::A, f: Ev::A }) }
  fn q_enum_flat() { all(&Ht { t: Tg::A, e: Ev::A, o: None, v: vec![Ev::A, Ev::B("v".into())], u: Un::A, f: ev(choice("v", 9)) }) }
  fn q_ns() { all(&Ns { s: st(), l: vec![NsIn { k: 1 }, NsIn { k: 2 }] }) }
  fn q_num() { all(&Num { a: -1, b: 2, c: -3, d: true, e: 1.5, g: Some(false), h: vec![1, 2], i: Some(9), j: vec![0.5], k: Some(2.5) }) }
  fn q_default() { all(&Df { a: if flag("a") { "d".into() } else { st() }, b: opt("b", st), c: 1, t: opt("t", || Emp { }) }) }
  fn q_tag() { all(&Tg::B); }
  fn q_empty() { all(&Emp { }) }
  fn q_indent() { let v = Ns { s: st(), l: vec![NsIn { k: 1 }] }; let c = || Config { perform_indent: true, write_document_declaration: flag("decl"), indent_string: None }; let c1 = c(); let mut f = Once { got: vec![], calls: 0, fail_at: usize::MAX, failed: false }; check!(serialize_with_writer(&v, Shared(&mut f), &c1).is_ok(), "serialization failed"); let r = choice("room", f.got.len() as u8 + 1) as usize; let mut w = Bad { got: vec![], room: r, step: 5, how: 0, failed: false, hiccup: false }; let ok = serialize_with_writer(&v, Shared(&mut w), &c1).is_ok(); judge(ok, w.failed, &w.got, &f.got) }
  fn q_content() { let v = Sink { a: st(), n: Some(-1), i: 2, s: None, v: vec![1], b: vec![], f: 0.5, p: part(), o: None, l: vec![], e: Ev::B("x".into()), x: Fl { w: None, z: true, q: None }, c: "c".into() }; let full = yaserde::ser::to_string_content(&v).unwrap().into_bytes(); let r = choice("room", full.len() as u8 + 1) as usize; let mut w = Bad { got: vec![], room: r, step: 4, how: 2, failed: false, hiccup: false }; let ok = yaserde::ser::serialize_with_writer_content(&v, Shared(&mut w)).is_ok(); judge(ok, w.failed, &w.got, &full) }
  fn q_long() { let n = pick("n", &[100usize, 300]); let v = Part { k: 1, t: "ab<".repeat(n) }; let full = ser(&v).into_bytes(); let at = pick("room", &[0usize, 37, 60, 255, 256, 511, 512, 1023, 1024]); let mut w = Bad { got: vec![], room: at, step: usize::MAX, how: 0, failed: false, hiccup: false }; let ok = serialize_with_writer(&v, Shared(&mut w), &Config::default()).is_ok(); judge(ok, w.failed, &w.got, &full) }
  fn q_same_bytes() { let v = Sink { a: st(), n: None, i: 2, s: Some(st()), v: vec![1], b: vec!["b".into()], f: 0.5, p: part(), o: None, l: vec![part()], e: Ev::A, x: Fl { w: None, z: true, q: Some(2) }, c: "c".into() }; let full = ser(&v); let w = serialize_with_writer(&v, Vec::new(), &Config::default()); check!(w.as_deref() == Ok(full.as_bytes()), "the sink did not get the document"); let s = choice("step", 9) as usize + 1; let mut b = Bad { got: vec![], room: usize::MAX, step: s, how: 0, failed: false, hiccup: false }; check!(serialize_with_writer(&v, Shared(&mut b), &Config::default()).is_ok() && b.got == full.as_bytes(), "the sink did not get the document"); cover(0) }
  fn q_struct_variant() { if flag("w") { all(&Sv::W { b: true }) } else { all(&Sv::V { o: Some(st()), p: Some(part()), v: vec![1, 2], w: vec![part()], u: Un::B, s: "s".into() }) } }
  fn q_lists() { all(&Sh { a: 1, e: Sv::W { b: true }, c: vec!['c', '<'], v: vec![Some(1), None, Some(2)], w: vec![None, Some(part())], o: Some(vec![st()]), l: vec![1, 2] }) }
  fn q_text_opt() { all(&Ot { t: opt("t", || vis::<2>("tv")) }) }
  fn q_variants() { let f = |n: &str| match choice(n, 3) { 0 => Fv::U, 1 => Fv::Part(part()), _ => Fv::Fl(Fl { w: Some("w".into()), z: true, q: Some(1) }) }; all(&Hf { e: f("e"), f: f("f"), w: Wr(7) }) }
  fn q_wrapper() { all(&Wr(byte("w") & 15)) }
}
