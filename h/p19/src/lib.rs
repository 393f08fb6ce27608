use util::*;
use yaserde::ser::{serialize_with_writer, to_string, to_string_with_config, Config};
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: Option<String>, i: i32, s: Option<String>, v: Vec<u8>, p: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Leaf), D(Vec<i16>), E(Option<Fl>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Deep { d: Option<Box1>, n: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Box1 { d: Option<Box2>, l: Vec<Box2> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Box2 { d: Option<Leaf>, e: Vec<Ev> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Mix { #[yaserde(text = true)] t: String, c: Option<u8>, q: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Xim { c: Option<u8>, q: Option<Leaf>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String, n: Option<u8>, #[yaserde(cdata = true)] d: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Empty {}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct He { e: Option<Empty>, v: Vec<Empty> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<String>, #[yaserde(prefix = "n")] p: Vec<NsIn>, #[yaserde(prefix = "n", attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n")] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Fe, z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, B(String), C(Leaf), D(Vec<u8>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { t: Option<Tg>, v: Vec<Tg>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct W { w: Option<yaserde_wrap>, v: Vec<yaserde_wrap> }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug)]
#[allow(non_camel_case_types)]
struct yaserde_wrap(u8);
fn cfg(indent: bool, decl: bool, s: Option<&str>) -> Config { Config { perform_indent: indent, write_document_declaration: decl, indent_string: s.map(|s| s.to_string()) } }
/// Blanks next to a tag removed: what is left is the document without layout.
fn squeeze(d: &str) -> String { let b = d.as_bytes(); let ws = |c: u8| c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'; let mut o: Vec<u8> = vec![]; let mut i = 0; let mut tag = false;
  while i < b.len() { let c = b[i]; if c == b'<' { while o.last().map_or(false, |c| ws(*c)) { o.pop(); } tag = true } o.push(c); i += 1; if c == b'>' && tag { tag = false; while i < b.len() && ws(b[i]) { i += 1 } } } String::from_utf8(o).unwrap() }
/// Every combination of options with this value: the same document but for layout, and the same value read back.
fn all<T: YaSerialize + YaDeserialize + PartialEq>(v: T, exact: bool) {
  let plain = ser(&v); let ind = flag("indent"); let decl = flag("decl");
  let k = choice("string", 4); let b = bytes::<2>("is"); for c in b { assume(c == b' ' || c == b'\t') } let s = match k { 0 => None, n => Some(std::str::from_utf8(&b[..n as usize - 1]).unwrap()) };
  let c = cfg(ind, decl, s); let out = match to_string_with_config(&v, &c) { Ok(o) => o, Err(_) => violation("serialization failed") }; observe(out.as_bytes());
  check!(out.starts_with(DECL) == decl, "the document declaration is there or not as asked");
  let body = plain.strip_prefix(DECL).unwrap(); let want = if decl { plain.clone() } else { body.to_string() };
  if !ind { check!(out == want, "options other than layout changed the document") } else if exact { check!(squeeze(&out) == want, "layout changed the document"); let lines = out.matches('\n').count(); check!(body.matches('<').count() < 3 || lines > 0, "indentation was asked for but not written") }
  let w = serialize_with_writer(&v, Vec::new(), &c); check!(w == Ok(out.clone().into_bytes()), "the writer receives another document");
  match de::<T>(&out) { Ok(w) => check!(w == v, "value changed in a round trip"), Err(_) => violation("own output refused") }
  cover(0)
}
fn part() -> Part { Part { k: opt("k", || 3), t: "t".into() } }
fn leaf(n: u8) -> Leaf { if n == 0 { Leaf { s: None, k: None } } else { Leaf { s: Some("s".into()), k: Some(n) } } }
fn ev(k: u8) -> Ev { match k { 0 => Ev::A, 1 => Ev::B("y".into()), 2 => Ev::C(leaf(1)), 3 => Ev::D(vec![-1, 2]), _ => Ev::E(Some(Fl { w: Some("w".into()), z: None })) } }
harnesses! {
  fn q_default() { let t = vis::<1>("t"); let v = Sink { a: Some(t.clone()), i: -3, s: Some(t.clone()), v: vec![1], p: Some(part()), l: vec![part()], e: ev(choice("e", 5)), x: Fl { w: Some(t), z: None } }; check!(to_string_with_config(&v, &Config::default()) == to_string(&v), "default options are not the plain document"); let d = Config::default(); check!(!d.perform_indent && d.write_document_declaration && d.indent_string.is_none(), "defaults differ"); cover(0) }
  fn q_shape() { all(Sink { a: opt("a", || "x".to_string()), i: 7, s: opt("s", || "y".to_string()), v: list("v", 2, || 4), p: opt("p", part), l: list("l", 1, || Part { k: None, t: "u".into() }), e: Ev::A, x: Fl { w: opt("w", || "v".to_string()), z: None } }, true) }
  fn q_enum() { all(Sink { a: None, i: 7, s: None, v: vec![], p: None, l: vec![], e: ev(choice("e", 5)), x: Fl { w: None, z: opt("z", || -9) } }, true) }
  fn q_text() { let t = vis::<1>("t"); let u = vis::<1>("u"); all(Sink { a: Some(t.clone()), i: 7, s: Some(t.clone()), v: vec![], p: Some(Part { k: None, t: u.clone() }), l: vec![], e: Ev::B(u), x: Fl { w: None, z: None } }, true) }
  fn q_attr() { let t = any::<1>("t"); let l = Leaf { s: None, k: opt("k", || 4) }; all(Sink { a: Some(t), i: 7, s: None, v: vec![], p: None, l: vec![], e: Ev::C(l), x: Fl { w: None, z: None } }, false) }
  fn q_text_inner() { let t = txt::<3>("t"); all(Fl { w: Some(t), z: Some(2) }, true) }
  fn q_empty_text() { let e = String::new; all(Sink { a: Some(e()), i: 0, s: Some(e()), v: vec![], p: Some(Part { k: None, t: e() }), l: vec![Part { k: Some(1), t: e() }], e: Ev::B(e()), x: Fl { w: Some(e()), z: None } }, true) }
  fn q_deep() { let b2 = |n| Box2 { d: opt("b", || leaf(n)), e: list("e", 2, || ev(n)) }; all(Deep { d: opt("d", || Box1 { d: Some(b2(1)), l: list("l", 1, || Box2 { d: Some(leaf(0)), e: vec![] }) }), n: 1 }, true) }
  fn q_deep_enum() { let k = choice("e", 5); all(Deep { d: Some(Box1 { d: None, l: vec![Box2 { d: None, e: vec![ev(k), ev(choice("f", 5))] }] }), n: 1 }, true) }
  fn q_mixed() { let t = vis::<1>("t"); all(Mix { t, c: opt("c", || 3), q: opt("q", || leaf(1)) }, true) }
  fn q_mixed2() { let t = vis::<1>("t"); all(Xim { t, c: opt("c", || 3), q: opt("q", || leaf(1)) }, true) }
  fn q_mixed_empty() { all(Xim { t: String::new(), c: opt("c", || 3), q: opt("q", || leaf(0)) }, true) }
  fn q_mixed_inner() { let t = txt::<3>("t"); all(Mix { t, c: Some(1), q: None }, true) }
  fn q_cdata() { let t = vis::<1>("t"); all(Cd { c: t, n: opt("n", || 2), d: "x".into() }, false) }
  fn q_cdata2() { let t = txt::<3>("t"); all(Cd { c: "a<b".into(), n: None, d: t }, false) }
  fn q_cdata_empty() { all(Cd { c: String::new(), n: opt("n", || 2), d: "]]>".into() }, false) }
  fn q_void() { all(He { e: opt("e", || Empty {}), v: list("v", 2, || Empty {}) }, true) }
  fn q_void_root() { all(Empty {}, true) }
  fn q_ns() { let t = vis::<1>("t"); all(Ns { s: Some(t), p: list("p", 2, || NsIn { t: opt("t", || "x".to_string()) }), k: opt("k", || 1) }, true) }
  fn q_flat() { let t = vis::<1>("t"); all(Ff { a: opt("a", || 1), e: match choice("e", 4) { 0 => Fe::N, 1 => Fe::B(t), 2 => Fe::C(leaf(1)), _ => Fe::D(vec![1, 2]) }, z: opt("z", || "q".to_string()) }, true) }
  fn q_tag() { all(Ht { t: opt("t", || Tg::B), v: list("v", 2, || if flag("b") { Tg::B } else { Tg::A }), s: "s".into() }, true) }
  fn q_wrap() { all(W { w: opt("w", || yaserde_wrap(3)), v: list("v", 2, || yaserde_wrap(4)) }, true) }
  fn q_root_enum() { all(ev(choice("e", 5)), true) }
  fn q_nums() { let n = u8_("n"); let z = i64_("z"); let i = -128; all(Sink { a: None, i, s: None, v: vec![n], p: None, l: vec![], e: Ev::A, x: Fl { w: None, z: Some(z) } }, true) }
  fn q_uni() { let t = uni("t", choice("l", 3) + 2); all(Fl { w: Some(t), z: None }, true) }
}
