use util::*;
use yaserde::__xml::{reader::XmlEvent as Rd, writer::XmlEvent as Wr};
use yaserde::{de::Deserializer, ser::Serializer};
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Doc { #[yaserde(attribute = true)] i: Option<u8>, a: u8, b: Option<bool>, c: Vec<Item>, d: Option<Item>, f: Option<String> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Item { #[yaserde(attribute = true)] i: u8, #[yaserde(text = true)] t: String, g: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct List { a: Vec<u8>, b: Vec<String>, c: Vec<Pair> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Pair { a: Option<u8>, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fl { a: Option<u8>, #[yaserde(flatten = true)] f: Fp, #[yaserde(flatten = true)] e: Fe, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fp { #[yaserde(attribute = true)] j: Option<u8>, b: Option<u8>, c: Vec<Pair> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, #[yaserde(rename = "s")] S(String), #[yaserde(rename = "p")] P(Pair) }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(flatten = true)]
struct Fs { a: Option<Pair>, b: Option<u8>, #[yaserde(flatten = true)] f: Option<Fp>, e: Option<Ev> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
enum Ev { #[default] N, #[yaserde(rename = "s")] S(String), #[yaserde(rename = "p")] P(Pair), #[yaserde(rename = "v")] V(Vec<u8>), #[yaserde(rename = "o")] O(Option<Item>), U }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(tag = "k")]
enum Tg { #[default] N, #[yaserde(rename = "p")] P, #[yaserde(rename = "q")] Q }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Tx { #[yaserde(text = true)] t: Option<String>, e: Option<Ev>, g: Vec<Tg> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Gn<T: YaSerialize + YaDeserialize> { t: Option<T>, v: Vec<T> }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug, Clone)]
struct Wr8(u8);
#[derive(yaserde::HexBinaryYaSerde, PartialEq, Debug, Clone)]
struct Hx(u8);
impl Hx { fn from_bits(b: u8) -> Option<Self> { Some(Hx(b)) } }

/// Reads a T where the cursor stands inside a larger document, and compares with the same element read as a document.
fn placed<T: YaDeserialize + PartialEq + std::fmt::Debug>(n: &Node) {
  let e = n.xml(); let alone = de::<T>(&e); let (pre, post) = (pick("pre", &["", "p", "<a/>"]), pick("post", &["", "q", "<a>7</a>"]));
  let x = cat!("<x i=\"3\"><y><a>9</a>u</y>", pre, e, post, "<", n.name, ">8</", n.name, "></x>"); observe(x.as_bytes());
  let mut r = Deserializer::new_from_reader(x.as_bytes()); let r = &mut r; name_of(r); name_of(r); let _ = r.skip_element(|_| {}); match pre { "p" => { let _ = r.next_event(); } "<a/>" => { name_of(r); let _ = r.skip_element(|_| {}); } _ => {} }
  if flag("peek") { let _ = r.peek(); }
  let v = T::deserialize(r);
  match (v, alone) { (Ok(a), Ok(b)) => { check!(a == b, "read in place differs from read alone"); check!(r.depth() == 2, "the reader is not left on the closing tag"); check!(matches!(r.next_event(), Ok(Rd::EndElement { name }) if name.local_name == n.name), "the reader is not left on the closing tag");
      match post { "q" => check!(matches!(r.next_event(), Ok(Rd::Characters(t)) if t == "q"), "what follows was disturbed"), "" => {} _ => { check!(name_of(r) == "a", "what follows was disturbed"); check!(r.skip_element(|_| {}).is_ok(), "what follows was disturbed") } }
      check!(name_of(r) == n.name && r.depth() == 2, "what follows was disturbed"); check!(matches!(r.next_event(), Ok(Rd::Characters(t)) if t == "8"), "what follows was disturbed") }
    (Err(_), Err(_)) => {} (Ok(_), Err(_)) => violation("read in place although refused alone"), (Err(_), Ok(_)) => violation("refused in place although read alone") }
  cover(0)
}
fn name_of<R: std::io::Read>(r: &mut Deserializer<R>) -> String { match r.next_event() { Ok(Rd::StartElement { name, .. }) => name.local_name, _ => String::new() } }
/// Reads the elements inside a document one after the other.
fn stream<T: YaDeserialize + PartialEq>(items: &[Node], sep: &str) {
  let mut x = String::from("<x>"); for i in items { x.push_str(&i.xml()); x.push_str(sep) } x.push_str("</x>"); observe(x.as_bytes()); let mut r = Deserializer::new_from_reader(x.as_bytes()); name_of(&mut r);
  for i in items { let alone = de::<T>(&i.xml()); loop { match r.peek() { Ok(Rd::Characters(_)) => { let _ = r.next_event(); } _ => break } } match (T::deserialize(&mut r), alone) { (Ok(a), Ok(b)) => check!(a == b, "read in place differs from read alone"), (Err(_), Err(_)) => { cover(0); return } _ => violation("read in place differs from read alone") } check!(matches!(r.next_event(), Ok(Rd::EndElement { .. })), "the reader is not left on the closing tag") }
  cover(0)
}
/// The same element, of the name the caller asks for.
fn renamed(e: &str, root: &str, n: &str) -> String { let e = &e[1 + root.len()..]; match e.strip_suffix(&cat!("</", root, ">")[..]) { Some(b) => cat!("<", n, b, "</", n, ">"), None => cat!("<", n, e) } }
fn body<T: YaSerialize>(v: &T) -> String { ser(v).replace(DECL, "") }
type W = Serializer<Vec<u8>>;
fn start(x: &str) -> W { let mut s = Serializer::new_from_writer(Vec::new(), &yaserde::ser::Config::default()); check!(s.write(Wr::start_element(x)).is_ok(), "write"); s }
fn end(mut s: W) -> String { check!(s.write(Wr::end_element()).is_ok(), "write"); String::from_utf8(s.into_inner()).unwrap() }
fn item(n: &str) -> Item { Item { i: below("i", 10), t: vis::<1>(n), g: opt("g", || 4) } }
fn sdoc() -> Doc { Doc { i: opt("di", || 1), a: below("a", 10), b: None, c: list("c", 2, || Item { i: 1, t: "t".into(), g: None }), d: opt("d", || item("dt")), f: opt("f", || vis::<1>("ft")) } }
fn spair() -> Pair { Pair { a: opt("pa", || below("pav", 10)), b: opt("pb", || 2) } }
fn sev() -> Ev { match choice("ev", 6) { 0 => Ev::N, 1 => Ev::S(vis::<1>("s")), 2 => Ev::P(spair()), 3 => Ev::V(vec![1, 2]), 4 => Ev::O(opt("o", || item("ot"))), _ => Ev::U } }
fn sfl() -> Fl { Fl { a: opt("fa", || 1), f: Fp { j: opt("fj", || 2), b: None, c: list("fc", 2, || Pair { a: Some(3), b: None }) }, e: match choice("fe", 3) { 0 => Fe::N, 1 => Fe::S(vis::<1>("fs")), _ => Fe::P(Pair { a: None, b: Some(4) }) }, z: opt("fz", || 5) } }
fn stx() -> Tx { Tx { t: opt("tt", || vis::<1>("tv")), e: opt("te", || Ev::U), g: vec![Tg::P, Tg::Q] } }
/// One value of some type: how to write it, what it looks like alone, and the name of its root.
enum Any { D(Doc), P(Pair), E(Ev), F(Fl), T(Tx), G(Gn<Pair>), W(Wr8), H(Hx), L(List), K(Tg) }
impl Any {
  fn put(&self, s: &mut W) { let r = match self { Any::D(v) => v.serialize(s), Any::P(v) => v.serialize(s), Any::E(v) => v.serialize(s), Any::F(v) => v.serialize(s), Any::T(v) => v.serialize(s), Any::G(v) => v.serialize(s), Any::W(v) => v.serialize(s), Any::H(v) => v.serialize(s), Any::L(v) => v.serialize(s), Any::K(v) => v.serialize(s) }; check!(r.is_ok(), "serialization fails") }
  fn alone(&self) -> String { match self { Any::D(v) => body(v), Any::P(v) => body(v), Any::E(v) => body(v), Any::F(v) => body(v), Any::T(v) => body(v), Any::G(v) => body(v), Any::W(v) => body(v), Any::H(v) => body(v), Any::L(v) => body(v), Any::K(v) => body(v) } }
  fn root(&self) -> &'static str { match self { Any::D(_) => "Doc", Any::P(_) => "Pair", Any::E(_) => "Ev", Any::F(_) => "Fl", Any::T(_) => "Tx", Any::G(_) => "Gn", Any::W(_) => "Wr8", Any::H(_) => "Hx", Any::L(_) => "List", Any::K(_) => "Tg" } }
}
/// few of every type, and any
fn small(n: &str) -> Any { match choice(n, 12) { 0 => Any::D(Doc { i: None, a: 1, b: Some(true), c: vec![], d: Some(Item { i: 1, t: "x".into(), g: None }), f: None }), 1 => Any::D(Doc { i: Some(2), a: 1, b: None, c: vec![Item { i: 1, t: "x".into(), g: None }], d: None, f: Some("f".into()) }), 2 => Any::P(Pair { a: Some(1), b: None }), 3 => Any::E(Ev::U), 4 => Any::E(Ev::P(Pair { a: None, b: Some(2) })), 5 => Any::F(Fl { a: Some(1), f: Fp { j: Some(2), b: None, c: vec![] }, e: Fe::S("s".into()), z: None }), 6 => Any::T(Tx { t: Some("t".into()), e: Some(Ev::U), g: vec![Tg::P] }), 7 => Any::G(Gn { t: Some(Pair { a: None, b: None }), v: vec![] }), 8 => Any::W(Wr8(7)), 9 => Any::H(Hx(171)), 10 => Any::L(List { a: vec![1], b: vec!["b".into()], c: vec![] }), _ => Any::K(Tg::Q) } }
fn full() -> Any { match choice("ty", 8) { 0 => Any::D(sdoc()), 1 => Any::P(spair()), 2 => Any::E(sev()), 3 => Any::F(sfl()), 4 => Any::T(stx()), 5 => Any::G(Gn { t: opt("gt", || spair()), v: list("gv", 2, || Pair { a: None, b: Some(1) }) }), 6 => Any::W(Wr8(below("w", 10))), _ => Any::L(List { a: list("la", 2, || 1), b: list("lb", 2, || vis::<1>("l")), c: vec![] }) } }
fn inside<'a>(e: &'a str, root: &str) -> &'a str { match e.strip_suffix(&cat!("</", root, ">")[..]) { Some(b) => &b[e.find('>').unwrap() + 1..], None => "" } }
harnesses! {
  fn q_words() { let w = word("w"); let n = wname("n"); assume(n == "nil" || w == "nil"); let e = Node::new(&n).attr("i", "1"); match choice("k", 4) { 0 => placed::<Item>(&e.text(&w)), 1 => placed::<Ev>(&Node::new(&n).text(&w)), 2 => placed::<Ev>(&Node::new(&n).kid(Node::new("s").text(&w))), _ => placed::<Doc>(&e.kid(Node::new("a").text("5")).kid(Node::new("f").text(&w)).kid(Node::new(&n).text(&w))) } }
  // ---- reading where the cursor stands
  fn q_doc() { let n = tree(3).kid(Node::new("a").text("5")); placed::<Doc>(&n) }
  fn q_doc_refused() { placed::<Doc>(&tree(3)) }
  fn q_list() { placed::<List>(&tree(3)) }
  fn q_flat() { placed::<Fl>(&tree(3)) }
  fn q_gen() { placed::<Gn<Pair>>(&tree(4)) }
  fn q_enum() { placed::<Ev>(&if flag("text") { Node::new(&name::<1>("r")).text(&name::<1>("u")) } else { tree(2) }) }
  fn q_enum_item() { let t = vis::<1>("t"); let i = vis::<1>("i"); placed::<Ev>(&Node::new("r").kid(Node::new(pick("k", &["o", "p", "v", "q"])).attr("i", &i).text(&t))) }
  fn q_text() { let n = tree(2).text(&vis::<1>("t")).kid(Node::new("e").text("U")).kid(Node::new("g").attr("k", &name::<1>("k"))); placed::<Tx>(&n) }
  fn q_tag() { placed::<Tg>(&Node::new(&name::<1>("r")).attr(&name::<1>("a"), &name::<1>("v"))) }
  fn q_wrap() { let n = Node::new(&name::<1>("r")).text(&vis::<2>("t")); if flag("hex") { placed::<Hx>(&n) } else { placed::<Wr8>(&n) } }
  fn q_item() { let n = Node::new(&name::<1>("r")).attr("i", &upto::<2>("i")); placed::<Item>(&match choice("k", 3) { 0 => n, 1 => n.text(&vis::<1>("t")), _ => n.kid(Node::new("g").text(&vis::<1>("g"))).text("z") }) }
  fn q_stream() { let sep = pick("sep", &["", "t", "\n"]); let k = name::<1>("k"); let n: Vec<Node> = (0..choice("n", 4)).map(|i| { let n = Node::new(if i == 0 { &k } else { "r" }).attr("i", "1"); if flag("kid") { n.kid(shape("(d)")) } else { n.text("2") } }).collect(); match choice("ty", 4) { 0 => stream::<Item>(&n, sep), 1 => stream::<Ev>(&n, sep), 2 => stream::<List>(&n, sep), _ => stream::<Fl>(&n, sep) } }
  // ---- writing in the middle of a document
  fn q_w_one() { let v = full(); let mut s = start("x"); v.put(&mut s); check!(end(s) == doc(&cat!("<x>", v.alone(), "</x>")), "written in place differs from written alone"); cover(0) }
  fn q_w_two() { let a = small("a"); let b = full(); let mut s = start("x"); a.put(&mut s); if flag("text") { check!(s.write(Wr::characters("t")).is_ok(), "write"); b.put(&mut s); check!(end(s) == doc(&cat!("<x>", a.alone(), "t", b.alone(), "</x>")), "written in place differs from written alone") } else { b.put(&mut s); check!(end(s) == doc(&cat!("<x>", a.alone(), b.alone(), "</x>")), "written in place differs from written alone") } cover(0) }
  fn q_w_three() { let a = small("a"); let b = small("b"); let c = small("c"); let mut s = start("x"); a.put(&mut s); b.put(&mut s); c.put(&mut s); check!(end(s) == doc(&cat!("<x>", a.alone(), b.alone(), c.alone(), "</x>")), "written in place differs from written alone"); cover(0) }
  fn q_w_named() { let a = small("a"); let b = full(); let n = name::<1>("n"); let m = name::<1>("m"); let mut s = start("x"); s.set_start_event_name(Some(n.clone())); a.put(&mut s); let again = flag("again"); if !again { s.set_start_event_name(Some(m.clone())) } b.put(&mut s); check!(end(s) == doc(&cat!("<x>", renamed(&a.alone(), a.root(), &n), renamed(&b.alone(), b.root(), if again { &n } else { &m }), "</x>")), "written in place differs from written alone"); cover(0) }
  fn q_w_flatten() { // types without an element of their own, before and between others
    let a = small("a"); let b = small("b"); let mut s = start("x"); let named = flag("named"); if named { s.set_start_event_name(Some("n".into())) } let mut one = || { let (r, x) = if flag("enum") { match choice("e", 3) { 0 => (Fe::N.serialize(&mut s), "N".to_string()), 1 => { let t = vis::<1>("t"); (Fe::S(t.clone()).serialize(&mut s), el("s", &esc(&t))) } _ => (Fe::P(Pair { a: Some(1), b: None }).serialize(&mut s), "<p><a>1</a></p>".to_string()) } } else {
        let v = Fs { a: opt("fa", || Pair { a: None, b: Some(3) }), b: opt("fb", || 4), f: opt("ff", || Fp { j: None, b: Some(5), c: vec![Pair { a: Some(6), b: None }] }), e: opt("fe", || Ev::S("q".into())) }; let x = cat!(if v.a.is_some() { "<a><b>3</b></a>" } else { "" }, if v.b.is_some() { "<b>4</b>" } else { "" }, if v.f.is_some() { "<b>5</b><c><a>6</a></c>" } else { "" }, if v.e.is_some() { "<e><s>q</s></e>" } else { "" }); (v.serialize(&mut s), x) }; check!(r.is_ok(), "serialization fails"); x };
    let x = one(); let y = if flag("two") { one() } else { String::new() }; let name = |a: &Any| if named { renamed(&a.alone(), a.root(), "n") } else { a.alone() }; a.put(&mut s); b.put(&mut s); check!(end(s) == doc(&cat!("<x>", x, y, name(&a), name(&b), "</x>")), "written in place differs from written alone"); cover(0) }
  fn q_w_inside() { let a = small("a"); let b = small("b"); let c = small("c"); let mut s = start("x"); s.set_skip_start_end(true); a.put(&mut s); b.put(&mut s); s.set_skip_start_end(false); c.put(&mut s); let (x, y) = (a.alone(), b.alone()); let i = cat!(inside(&x, a.root()), inside(&y, b.root()), c.alone()); check!(end(s) == doc(&cat!("<x>", i, "</x>")), "written in place differs from written alone"); cover(0) }
}
