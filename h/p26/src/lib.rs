use util::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use yaserde::__xml::{reader::XmlEvent as Rd, writer::XmlEvent as Wr};
use yaserde::{de::Deserializer, ser::{Config, Serializer}};
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Doc { #[yaserde(attribute = true)] i: Option<u8>, a: u8, b: Option<bool>, c: Vec<Item>, d: Option<Item>, #[yaserde(default = "seven", skip_serializing_if = "is9")] e: u8, f: Option<String> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Item { #[yaserde(attribute = true)] i: u8, #[yaserde(text = true)] t: String, g: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct List { a: Vec<u8>, b: Vec<String>, c: Vec<Pair> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Pair { a: Option<u8>, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fl { #[yaserde(attribute = true)] i: Option<u8>, a: Option<u8>, #[yaserde(flatten = true)] f: Fp, #[yaserde(flatten = true)] g: Option<Fq>, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fp { #[yaserde(attribute = true)] j: Option<u8>, b: Option<u8>, c: Vec<Pair> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fq { q: u8, p: Option<Pair> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
enum Ev { #[default] N, #[yaserde(rename = "s")] S(String), #[yaserde(rename = "p")] P(Pair), #[yaserde(rename = "v")] V(Vec<u8>), U }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(tag = "k")]
enum Tg { #[default] N, #[yaserde(rename = "p")] P, #[yaserde(rename = "q")] Q }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "urn:a" })]
struct Ns { #[yaserde(prefix = "n")] a: u8, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "urn:b" }, rename = "Ns")]
struct Nt { #[yaserde(prefix = "n")] a: u8, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Gn<T: YaSerialize + YaDeserialize> { t: Option<T>, v: Vec<T> }
/// The same name as another type, declared otherwise.
mod other { use super::*;
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
pub struct Item { #[yaserde(attribute = true)] pub t: Option<String>, pub i: Option<u8>, pub g: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
pub struct Pair { pub b: Vec<u8>, #[yaserde(attribute = true)] pub a: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
pub enum Ev { #[default] N, #[yaserde(rename = "s")] P(Pair), #[yaserde(rename = "p")] S(String), U }
}
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug, Clone)]
struct Wr8(u8);
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug, Clone)]
struct Ws(String);
#[derive(yaserde::HexBinaryYaSerde, PartialEq, Debug, Clone)]
struct Hx(u8);
impl Hx { fn from_bits(b: u8) -> Option<Self> { Some(Hx(b)) } }
fn seven() -> u8 { 7 }
impl Doc { fn is9(&self, v: &u8) -> bool { *v == 9 } }
type Act = Box<dyn Fn()>;
/// A read of a document whose value is known (None: refused), from memory or piece by piece.
fn rd<T: YaDeserialize + PartialEq + 'static>(x: String, v: Option<T>) -> Act { Box::new(move || { observe(x.as_bytes()); match (de::<T>(&x), &v) { (Ok(a), Some(b)) => check!(a == *b, "what is read depends on what was done before"), (Err(_), None) => {} _ => violation("whether a document is read depends on what was done before") } }) }
fn wr<T: YaSerialize + 'static>(v: T, x: String) -> Act { Box::new(move || { let s = ser(&v); check!(s == doc(&x), "what is written depends on what was done before") }) }
fn with<T: YaSerialize + 'static>(v: T, c: Config, x: String) -> Act { Box::new(move || check!(yaserde::ser::to_string_with_config(&v, &c).map_or(false, |s| s == x), "what is written depends on what was done before")) }
struct Full(usize);
impl Write for Full { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::ErrorKind::Other.into()) } let n = b.len().min(self.0); self.0 -= n; Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn wfail<T: YaSerialize + 'static>(v: T, n: usize) -> Act { Box::new(move || check!(yaserde::ser::serialize_with_writer(&v, Full(n), &Config::default()).is_err(), "a full sink was not reported")) }
fn ctn<T: YaSerialize + 'static>(v: T, x: String) -> Act { Box::new(move || check!(yaserde::ser::to_string_content(&v).map_or(false, |s| s == x), "what is written depends on what was done before")) }
fn pair(a: u8) -> Pair { Pair { a: Some(a), b: None } }
fn fl(i: Option<u8>, a: Option<u8>, j: Option<u8>, b: Option<u8>, g: Option<Fq>) -> Fl { Fl { i, a, f: Fp { j, b, c: vec![] }, g, z: None } }
fn d0() -> Doc { Doc { i: None, a: 1, b: None, c: vec![], d: None, e: 7, f: None } }
/// One read or write, with a symbolic part.
fn act(n: &str) -> Act {
  let k = choice(n, 42); let (d, v) = digit("d"); let d = d.to_string();
  match k {
    0 => rd(cat!("<Doc i='", d, "'><a>1</a><b>true</b><f>x</f></Doc>"), Some(Doc { i: Some(v), b: Some(true), f: Some("x".into()), ..d0() })),
    1 => rd(cat!("<Doc><a>", d, "</a></Doc>"), Some(Doc { a: v, ..d0() })),
    2 => rd::<Doc>(cat!("<Doc><b>1</b><e>", d, "</e></Doc>"), None),
    3 => rd::<Doc>(cat!("<Doc><a>", d, "</a><f>x</f"), None),
    4 => rd(cat!("<Doc><a>1</a><c i='2'>t</c><d i='3'><g>", d, "</g></d><e>4</e></Doc>"), Some(Doc { c: vec![Item { i: 2, t: "t".into(), g: None }], d: Some(Item { i: 3, t: "".into(), g: Some(v) }), e: 4, ..d0() })),
    5 => rd::<Doc>(cat!("<Doc><a>1</a><c i='", d, "x'>t</c></Doc>"), None),
    6 => rd(cat!("<Item i='1'>", d, "</Item>"), Some(Item { i: 1, t: d, g: None })),
    7 => rd(cat!("<Item t='", d, "'><i>1</i><g>2</g><g>3</g></Item>"), Some(other::Item { t: Some(d), i: Some(1), g: vec![2, 3] })),
    8 => rd(cat!("<List><a>1</a><b>", d, "</b><c><a>2</a></c><a>3</a></List>"), Some(List { a: vec![1, 3], b: vec![d], c: vec![pair(2)] })),
    9 => rd(cat!("<List><u><a>", d, "</a></u></List>"), Some(List { a: vec![], b: vec![], c: vec![] })),
    10 => rd(cat!("<Fl i='1' j='2'><a>3</a><b>", d, "</b></Fl>"), Some(fl(Some(1), Some(3), Some(2), Some(v), None))),
    11 => rd(cat!("<Fl><q>", d, "</q><p><a>1</a></p></Fl>"), Some(fl(None, None, None, None, Some(Fq { q: v, p: Some(pair(1)) })))),
    12 => rd(cat!("<Ev><s>", d, "</s></Ev>"), Some(Ev::S(d))),
    13 => rd("<Ev>U</Ev>".into(), Some(Ev::U)),
    14 => rd(cat!("<Ev><p>", d, "</p></Ev>"), Some(other::Ev::S(d))),
    15 => rd(cat!("<Ev><s a='1'><b>", d, "</b></s></Ev>"), Some(other::Ev::P(other::Pair { b: vec![v], a: Some(1) }))),
    16 => rd("<Tg k='q'/>".into(), Some(Tg::Q)),
    17 => rd::<Tg>("<Tg/>".into(), None),
    18 => rd(cat!("<Wr8>", d, "</Wr8>"), Some(Wr8(v))),
    19 => rd::<Wr8>(cat!("<Wr8>", d, "-</Wr8>"), None),
    20 => rd(cat!("<Hx>1", d, "</Hx>"), Some(Hx(16 + v))),
    21 => rd(cat!("<m:Ns xmlns:m='urn:a'><m:a>", d, "</m:a></m:Ns>"), Some(Ns { a: v, b: None })),
    22 => rd(cat!("<m:Ns xmlns:m='urn:b'><m:a>", d, "</m:a></m:Ns>"), Some(Nt { a: v, b: None })),
    23 => rd::<Ns>(cat!("<m:Ns xmlns:m='urn:b'><m:a>", d, "</m:a></m:Ns>"), None),
    24 => wr(Doc { i: Some(v), c: vec![Item { i: 1, t: "x".into(), g: None }], f: Some(d.clone()), e: 9, ..d0() }, cat!("<Doc i=\"", d, "\"><a>1</a><c i=\"1\">x</c><f>", d, "</f></Doc>")),
    25 => wr(fl(Some(1), None, Some(v), Some(2), Some(Fq { q: 3, p: Some(pair(4)) })), cat!("<Fl i=\"1\" j=\"", d, "\"><b>2</b><q>3</q><p><a>4</a></p></Fl>")),
    26 => wr(Ev::V(vec![v, 1]), cat!("<Ev><v>", d, "</v><v>1</v></Ev>")),
    27 => wr(other::Ev::P(other::Pair { b: vec![1], a: Some(v) }), cat!("<Ev><s a=\"", d, "\"><b>1</b></s></Ev>")),
    28 => wr(Tg::P, "<Tg k=\"p\" />".into()),
    29 => wr(Ns { a: v, b: Some(1) }, cat!("<n:Ns xmlns:n=\"urn:a\"><n:a>", d, "</n:a><b>1</b></n:Ns>")),
    30 => wr(Nt { a: v, b: None }, cat!("<n:Ns xmlns:n=\"urn:b\"><n:a>", d, "</n:a></n:Ns>")),
    31 => wfail(Doc { f: Some(d), ..d0() }, pick("at", &[0, 40, 52, 60])),
    32 => ctn(Doc { i: Some(v), f: Some(d.clone()), ..d0() }, cat!("<a>1</a><f>", d, "</f>")),
    33 => wr(Hx(16 + v), cat!("<Hx>1", d, "</Hx>")),
    34 => wr(Ws(d.clone()), cat!("<Ws>", d, "</Ws>")),
    35 => wr(Gn { t: Some(pair(v)), v: vec![pair(1)] }, cat!("<Gn><t><a>", d, "</a></t><v><a>1</a></v></Gn>")),
    36 => rd(cat!("<Gn><t><a>", d, "</a></t><v/></Gn>"), Some(Gn { t: Some(pair(v)), v: vec![Pair { a: None, b: None }] })),
    37 => rd(cat!("<Gn><t i='1'>", d, "</t></Gn>"), Some(Gn { t: Some(Item { i: 1, t: d, g: None }), v: vec![] })),
    38 => rd(cat!("<Ns xmlns='urn:a' xmlns:n='urn:a'><n:a>", d, "</n:a></Ns>"), Some(Ns { a: v, b: None })),
    39 => with(Doc { i: Some(v), ..d0() }, Config { perform_indent: false, write_document_declaration: false, indent_string: None }, cat!("<Doc i=\"", d, "\"><a>1</a></Doc>")),
    40 => with(pair(v), Config { perform_indent: true, write_document_declaration: false, indent_string: Some("_".into()) }, cat!("<Pair>\n_<a>", d, "</a>\n</Pair>")),
    _ => wr(Wr8(v), cat!("<Wr8>", d, "</Wr8>")),
  }
}
// ---- reference readers
type Q<T> = Result<T, ()>;
fn at(n: &Node, k: &str) -> Q<Option<u8>> { match n.get(k) { None => Ok(None), Some(v) => num(v).map(Some).ok_or(()) } }
fn mpair(n: &Node) -> Pair { Pair { a: n.last("a", num), b: n.last("b", num) } }
fn mlist(n: &Node) -> List { List { a: n.each("a", num), b: n.each("b", string), c: n.all("c").map(mpair).collect() } }
fn mfl(n: &Node) -> Q<Fl> { Ok(Fl { i: at(n, "i")?, a: n.last("a", num), f: Fp { j: at(n, "j")?, b: n.last("b", num), c: n.all("c").map(mpair).collect() }, g: n.last("q", num).map(|q| Fq { q, p: n.all("p").last().map(mpair) }), z: n.last("z", num) }) }
fn mgen(n: &Node) -> Gn<Pair> { Gn { t: n.all("t").last().map(mpair), v: n.all("v").map(mpair).collect() } }
/// The same document after another one of the same type, and again after it.
fn twice<T: YaDeserialize + PartialEq>(a: &Node, b: &Node, f: impl Fn(&Node) -> Option<T>) { agrees(a, f(a)); agrees(b, f(b)); agrees(a, f(a)) }
// ---- cursors used in turn
fn events(n: &Node, o: &mut Vec<String>) { o.push(cat!("<", n.name)); for k in &n.kids { match k { Kid::N(c) => events(c, o), Kid::T(t) | Kid::X(_, t) => o.push(t.clone()) } } o.push(cat!(">", n.name)) }
fn same(e: &Rd, w: &str) -> bool { match e { Rd::StartElement { name, .. } => w.starts_with('<') && w[1..] == name.local_name[..], Rd::EndElement { name } => w.starts_with('>') && w[1..] == name.local_name[..], Rd::Characters(t) => t == w, Rd::EndDocument => w.is_empty(), _ => false } }
struct Cur<'a> { r: Deserializer<&'a [u8]>, w: Vec<String>, at: usize }
impl<'a> Cur<'a> {
  fn new(x: &'a str, n: &Node) -> Self { let mut w = vec![]; events(n, &mut w); w.push(String::new()); Cur { r: Deserializer::new_from_reader(x.as_bytes()), w, at: 0 } }
  fn step(&mut self, op: u8) {
    if self.at >= self.w.len() { return }
    let w = &self.w[self.at];
    match op { 0 => check!(self.r.next_event().map_or(false, |e| same(&e, w)), "a cursor is moved by another one"), _ => { check!(self.r.peek().map_or(false, |e| same(e, w)), "a cursor is moved by another one"); return } }
    self.at += 1; let d = self.w[..self.at].iter().fold(0, |d, w| if w.starts_with('<') { d + 1 } else if w.starts_with('>') { d - 1 } else { d }); check!(self.r.depth() == d, "the depth of a cursor is moved by another one")
  }
}
// ---- reads and writes inside of each other
thread_local! { static INNER: RefCell<Option<Act>> = RefCell::new(None); }
fn inner() { let a = INNER.with(|c| c.borrow_mut().take()); if let Some(a) = a { a(); INNER.with(|c| *c.borrow_mut() = Some(a)) } }
fn set(a: Option<Act>) { INNER.with(|c| *c.borrow_mut() = a) }
/// A stream that reads or writes other documents whenever it is asked for bytes.
struct Busy<'a>(&'a [u8], usize);
impl Read for Busy<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { inner(); let n = self.1.min(self.0.len()).min(b.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
struct Sink(Vec<u8>);
impl Write for Sink { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { inner(); self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
/// A part that reads and writes other documents while it is read or written.
#[derive(PartialEq, Debug, Clone)]
struct Part(String);
impl YaDeserialize for Part { fn deserialize<R: Read>(r: &mut Deserializer<R>) -> Result<Self, String> { inner(); let p = Item::deserialize(r)?; inner(); Ok(Part(p.t)) } }
impl YaSerialize for Part {
  fn serialize<W: Write>(&self, w: &mut Serializer<W>) -> Result<(), String> { inner(); let r = Item { i: 1, t: self.0.clone(), g: None }.serialize(w); inner(); r }
  fn serialize_attributes(&self, a: Vec<yaserde::__xml::attribute::OwnedAttribute>, n: yaserde::__xml::namespace::Namespace) -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> { inner(); Ok((a, n)) }
}
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Host { x: Part, y: Vec<Part>, #[yaserde(flatten = true)] f: Option<Hf>, z: u8 }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Hf { o: Option<Part>, h: u8 }
fn host(t: &str) -> (Host, String) { let p = |t: &str| Part(t.into()); let e = |n: &str, t: &str| cat!("<", n, " i=\"1\">", esc(t), "</", n, ">"); (Host { x: p(t), y: vec![p("b"), p(t)], f: Some(Hf { o: Some(p("c")), h: 4 }), z: 5 }, cat!("<Host>", e("x", t), e("y", "b"), e("y", t), e("o", "c"), "<h>4</h><z>5</z></Host>")) }
/// Values written by two serializers in turn.
fn put(s: &mut Serializer<Vec<u8>>, k: u8, o: &mut String) { let (d, v) = digit("p"); let d = d.to_string(); let r = match k { 0 => { o.push_str(&el("Pair", &el("a", &d))); pair(v).serialize(s) } 1 => { o.push_str(&cat!("<Fl j=\"", d, "\" />")); fl(None, None, Some(v), None, None).serialize(s) } 2 => { o.push_str(&el("n", &d)); s.set_start_event_name(Some("n".into())); let r = Wr8(v).serialize(s); s.set_start_event_name(None); r } 3 => { o.push_str(&d); s.set_skip_start_end(true); let r = Item { i: 1, t: d, g: None }.serialize(s); s.set_skip_start_end(false); r } _ => { o.push_str(&el("Ev", "U")); Ev::U.serialize(s) } }; check!(r.is_ok(), "serialization failed") }
// ---- the same call before and after another one
fn read<T: YaDeserialize>(x: &[u8]) -> Result<T, String> { yaserde::de::from_reader(x) }
fn thrice<T: YaDeserialize + PartialEq>(x: &[u8], y: &[u8]) { observe(x); observe(y); let a = read::<T>(x); let _ = read::<T>(y); check!(a == read::<T>(x), "what is read depends on what was read before"); cover(0) }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "urn:a", "m" = "urn:b" })]
struct No { #[yaserde(prefix = "n")] a: Option<u8>, #[yaserde(prefix = "m")] p: Option<Np>, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(prefix = "m", namespaces = { "m" = "urn:b" })]
struct Np { #[yaserde(prefix = "m")] q: Option<u8>, #[yaserde(attribute = true)] k: Option<u8> }
const DOCS: &[&str] = &["<Doc i='1'><a>1</a><b>1</b><c i='2'>t</c><e>3</e><f>x</f></Doc>", "<Item i='1'>x<g>2</g></Item>", "<List><a>1</a><b>x</b><c><a>2</a></c><a>3</a></List>", "<Fl i='1' j='2'><a>3</a><b>4</b><c><a>5</a></c><q>6</q><p><b>7</b></p></Fl>", "<Ev><p><a>1</a></p></Ev>", "<Tg k='q'/>", "<Wr8>12</Wr8>", "<Hx>1f</Hx>", "<n:No xmlns:n='urn:a'><n:a>1</n:a><m:p xmlns:m='urn:b' k='2'><m:q>3</m:q></m:p></n:No>", "<Gn><t><a>1</a></t><v/><v><b>2</b></v></Gn>"];
fn both(k: usize, x: &[u8], y: &[u8]) { match k { 0 => thrice::<Doc>(x, y), 1 => thrice::<Item>(x, y), 2 => thrice::<List>(x, y), 3 => thrice::<Fl>(x, y), 4 => thrice::<Ev>(x, y), 5 => thrice::<Tg>(x, y), 6 => thrice::<Wr8>(x, y), 7 => thrice::<Hx>(x, y), 8 => thrice::<No>(x, y), _ => thrice::<Gn<Pair>>(x, y) } }
fn cut<'a>(n: &str, d: &'a str) -> &'a str { &d[..choice(n, d.len() as u8) as usize] }
fn hole<const N: usize>(d: &str) -> Vec<u8> { let over = flag("over"); let at = choice("at", d.len() as u8) as usize; let b = bytes::<N>("b"); for c in b { assume(c >= b' ' && c < 127) } let d = d.as_bytes(); let skip = if over { N.min(d.len() - at) } else { 0 }; [&d[..at], &b[..], &d[at + skip..]].concat() }
/// A value written before and after the same or another one that no longer fits.
fn full<T: YaSerialize, U: YaSerialize>(v: &T, u: &U) { let a = ser(v); let b = ser(u); let n = choice("n", b.len() as u8) as usize; check!(yaserde::ser::serialize_with_writer(u, Full(n), &Config::default()).is_err(), "a full sink was not reported"); check!(ser(v) == a && ser(u) == b, "what is written depends on what was written before"); cover(0) }
harnesses! {
  fn q_words() { let w = word("w"); let n = wname("n"); assume(n == "nil" || w == "nil"); let x = cat!("<", n, " i=\"1\" ", n, "2=\"", esca(&w), "\">", esc(&w), "</", n, ">"); let y = "<r i=\"2\">t</r>"; let (x, y) = if flag("swap") { (y, &x[..]) } else { (&x[..], y) }; thrice::<Item>(x.as_bytes(), y.as_bytes()) }
  fn q_cut_after() { let k = choice("k", DOCS.len() as u8) as usize; let d = DOCS[k]; let c = cut("n", d); if flag("order") { both(k, c.as_bytes(), d.as_bytes()) } else { both(k, d.as_bytes(), c.as_bytes()) } }
  fn q_any_after() { let k = choice("k", DOCS.len() as u8) as usize; let d = DOCS[k]; let c = hole::<1>(d); if flag("order") { both(k, &c, d.as_bytes()) } else { both(k, d.as_bytes(), &c) } }
  fn q_ns_after() { let u = |n: &str| pick(n, &["urn:a", "urn:b", "c"]); let d = |n: &str| { let (x, y) = (u(n), u(n)); match choice(n, 4) { 0 => cat!("<n:No xmlns:n='", x, "'/>"), 1 => cat!("<m:No xmlns:m='", x, "' xmlns:n='", y, "'><n:a>1</n:a><m:b>2</m:b></m:No>"), 2 => cat!("<No xmlns='", x, "'><a>1</a><n:p xmlns:n='", y, "' n:k='3'><n:q>2</n:q></n:p></No>"), _ => cat!("<No><n:p xmlns:n='", x, "' xmlns:m='", y, "'><m:q>2</m:q></n:p></No>") } }; let (x, y) = (d("x"), d("y")); thrice::<No>(x.as_bytes(), y.as_bytes()) }
  fn q_full_after() { let v = digit("v").1; match choice("k", 8) { 0 => full(&Doc { i: Some(v), c: vec![Item { i: 1, t: "x".into(), g: None }], f: Some("y".into()), ..d0() }, &Item { i: 1, t: "x".into(), g: Some(v) }), 1 => full(&fl(Some(1), Some(v), Some(2), Some(3), Some(Fq { q: 4, p: None })), &fl(Some(v), None, None, Some(1), None)), 2 => full(&Ev::P(pair(v)), &Ev::V(vec![v, 1])), 3 => full(&Ev::U, &Ev::S("x".into())), 4 => full(&Wr8(v), &Hx(v)), 5 => full(&Tg::P, &Tg::Q), 6 => full(&No { a: Some(v), p: Some(Np { q: Some(1), k: Some(2) }), b: None }, &No { a: None, p: None, b: Some(v) }), _ => full(&Gn { t: Some(pair(1)), v: vec![pair(v)] }, &Gn { t: None, v: vec![Item { i: v, t: "".into(), g: None }] }) } }
  fn t_cut_cut() { let k = choice("k", DOCS.len() as u8) as usize; let d = DOCS[k]; let (x, y) = (cut("n", d), cut("m", d)); both(k, x.as_bytes(), y.as_bytes()) }
  fn t_any_any() { let k = choice("k", DOCS.len() as u8) as usize; let d = DOCS[k]; let c = hole::<1>(d); let e = hole::<1>(d); both(k, &c, &e) }
  fn q_pairs() { let a = act("a"); let b = act("b"); a(); b(); a(); cover(0) }
  fn q_triples() { let a = act("a"); let k = choice("r", 5); let b = match k { 0 => rd::<Doc>("<Doc><a>1</a><c i='x'/></Doc>".into(), None), 1 => rd::<Doc>("<Doc><a>1".into(), None), 2 => rd(cat!("<Fl><b>3</b><c><a>1</a></c></Fl>"), Some(Fl { f: Fp { j: None, b: Some(3), c: vec![pair(1)] }, ..fl(None, None, None, None, None) })), 3 => wfail(Fl { z: Some(1), ..fl(Some(1), Some(2), Some(3), Some(4), Some(Fq { q: 1, p: None })) }, pick("at", &[38, 50, 57, 66, 75])), _ => wfail(Ev::P(pair(1)), pick("at2", &[40, 44, 49, 53])) }; let c = act("c"); b(); a(); b(); c(); a(); cover(0) }
  fn q_trees_list() { let a = tree(2); let b = tree(2); twice(&a, &b, |n| Some(mlist(n))) }
  fn q_trees_flat() { let a = tree(2); let b = tree(2); twice(&a, &b, |n| mfl(n).ok()) }
  fn q_trees_gen() { let a = tree(3); let b = shape("(V(A(d))(d)T(B(d)))"); twice(&a, &b, |n| Some(mgen(n))) }
  fn q_trees_same() { // two documents that differ in one place only
    let t = shape(pick("s", &["(A(d)C(B(d))Q(d))", "(=iA(d)=jB(d))"])); let k = name::<1>("k"); let (x, y) = (digit("x").0.to_string(), digit("y").0.to_string()); let a = t.clone().kid(Node::new(&k).text(&x)); let b = t.kid(Node::new(&k).text(&y)); if flag("list") { twice(&a, &b, |n| Some(mlist(n))) } else { twice(&a, &b, |n| mfl(n).ok()) } }
  fn q_cursors() { let a = shape(pick("sa", &["((d))", "(d(t))"])); let b = shape(pick("sb", &["((d)t)", "(((d)))"])); let (x, y) = (a.xml(), b.xml()); let (mut p, mut q) = (Cur::new(&x, &a), Cur::new(&y, &b)); for _ in 0..6 { match choice("op", 3) { 0 => p.step(0), 1 => q.step(0), _ => { p.step(1); q.step(1) } } } for _ in 0..9 { p.step(0); q.step(0) } check!(p.at == p.w.len() && q.at == q.w.len(), "a cursor is moved by another one"); cover(0) }
  fn q_cursor_values() { // values read in turn from two documents
    let ka = name::<1>("ka"); let kb = name::<1>("kb"); let mk = |k: &str| Node::new("x").kid(shape("(A(d)B(d))")).kid(Node::new(k).kid(Node::new("a").text("5"))).kid(shape("(B(d))")); let (a, b) = (mk(&ka), mk(&kb)); let (x, y) = (a.xml(), b.xml()); let (mut p, mut q) = (Deserializer::new_from_reader(x.as_bytes()), Deserializer::new_from_reader(y.as_bytes())); check!(p.next_event().is_ok() && q.next_event().is_ok(), "read");
    let want = |n: &Node| -> Vec<Pair> { n.kids.iter().map(|k| match k { Kid::N(c) => mpair(c), _ => pair(0) }).collect() }; let (wa, wb) = (want(&a), want(&b)); let (mut i, mut j) = (0, 0);
    while i < 3 || j < 3 { let first = j == 3 || (i < 3 && flag("first")); let (r, w, k) = if first { (&mut p, &wa, &mut i) } else { (&mut q, &wb, &mut j) }; match Pair::deserialize(r) { Ok(v) => check!(v == w[*k], "what is read depends on another cursor"), Err(_) => violation("whether a document is read depends on another cursor") } check!(matches!(r.next_event(), Ok(Rd::EndElement { .. })), "a cursor is moved by another one"); *k += 1; } cover(0) }
  fn q_writers() { let (mut s, mut t) = (Serializer::new_for_inner(Vec::new()), Serializer::new_for_inner(Vec::new())); let (mut x, mut y) = (String::from("<x>"), String::from("<y>")); check!(s.write(Wr::start_element("x")).is_ok() && t.write(Wr::start_element("y")).is_ok(), "write"); for _ in 0..3 { let k = choice("k", 5); if flag("first") { put(&mut s, k, &mut x) } else { put(&mut t, k, &mut y) } } check!(s.write(Wr::end_element()).is_ok() && t.write(Wr::end_element()).is_ok(), "write"); x.push_str("</x>"); y.push_str("</y>"); if x == "<x></x>" { x = "<x />".into() } if y == "<y></y>" { y = "<y />".into() } check!(s.into_inner() == x.as_bytes() && t.into_inner() == y.as_bytes(), "what is written depends on another writer"); cover(0) }
  fn q_writer_state() { // a name or state set on one serializer is its own
    let n = name::<1>("n"); let (mut s, mut t) = (Serializer::new_for_inner(Vec::new()), Serializer::new_for_inner(Vec::new())); s.set_start_event_name(Some(n.clone())); s.set_skip_start_end(flag("skip")); let skip = s.skip_start_end(); check!(t.get_start_event_name().is_none() && !t.skip_start_end(), "what is written depends on another writer"); check!(pair(1).serialize(&mut t).is_ok() && pair(2).serialize(&mut s).is_ok(), "write"); check!(t.into_inner() == b"<Pair><a>1</a></Pair>", "what is written depends on another writer"); let w = el("a", "2"); check!(s.into_inner() == if skip { w } else { el(&n, &w) }.as_bytes(), "what is written depends on another writer"); cover(0) }
  fn q_inside_read() { let a = act("a"); let t = vis::<1>("t"); let (v, x) = host(&t); set(Some(a)); let r = match choice("how", 3) { 0 => de::<Host>(&x), 1 => yaserde::de::from_reader(Busy(x.as_bytes(), 16)), _ => yaserde::de::from_reader(Busy(x.as_bytes(), 200)) }; set(None); match r { Ok(w) => check!(w == v, "what is read depends on what is done meanwhile"), Err(_) => violation("whether a document is read depends on what is done meanwhile") } cover(0) }
  fn q_inside_write() { let a = act("a"); let t = vis::<1>("t"); let (v, x) = host(&t); set(Some(a)); let r = if flag("sink") { yaserde::ser::serialize_with_writer(&v, Sink(vec![]), &Config::default()).map(|s| String::from_utf8(s.0).unwrap()) } else { yaserde::ser::to_string(&v) }; set(None); check!(r.map_or(false, |s| s == doc(&x)), "what is written depends on what is done meanwhile"); cover(0) }
  fn t_trees_list() { let a = tree(3); let b = tree(2); twice(&a, &b, |n| Some(mlist(n))) }
  fn t_trees_flat() { let a = tree(3); let b = tree(2); twice(&a, &b, |n| mfl(n).ok()) }
  fn t_cursors() { let a = shape("((d)t)"); let b = shape("((d(t)))"); let (x, y) = (a.xml(), b.xml()); let (mut p, mut q) = (Cur::new(&x, &a), Cur::new(&y, &b)); for _ in 0..8 { match choice("op", 4) { 0 => p.step(0), 1 => q.step(0), 2 => p.step(1), _ => q.step(1) } } for _ in 0..9 { p.step(0); q.step(0) } check!(p.at == p.w.len() && q.at == q.w.len(), "a cursor is moved by another one"); cover(0) }
  fn t_triples() { let a = act("a"); let b = act("b"); let c = act("c"); a(); b(); c(); cover(0) }
}
