use util::*;
use std::io::{Read, Write};
use yaserde::__xml::{attribute::OwnedAttribute, name::OwnedName, namespace::Namespace, reader::XmlEvent as Rd, writer::XmlEvent as Wr};
use yaserde::{de::Deserializer, ser::Serializer};
// ---------------------------------------------------------------- types with hand-written reading and writing
/// Keeps its own element as it was shown: name, attributes, everything inside.
#[derive(PartialEq, Debug, Clone, Default)]
struct Own { seen: String }
impl YaDeserialize for Own {
  fn deserialize<R: Read>(r: &mut Deserializer<R>) -> Result<Self, String> {
    let depth = r.depth(); let mut seen = String::new();
    match r.peek()? { Rd::StartElement { .. } => {} _ => return Err("not shown its element".into()) }
    loop {
      if let Rd::EndElement { .. } = r.peek()? { if r.depth() == depth + 1 { return Ok(Own { seen }) } }
      match r.next_event()? { Rd::StartElement { name, attributes, .. } => open(&mut seen, &name.local_name, attributes.iter().map(|a| (&a.name.local_name[..], &a.value[..]))), Rd::EndElement { name } => seen.push_str(&cat!("</", name.local_name, ">")), Rd::Characters(t) => seen.push_str(&esc(&t)), _ => return Err("something else".into()) }
    }
  }
}
fn open<'a>(o: &mut String, n: &str, a: impl Iterator<Item = (&'a str, &'a str)>) { o.push_str(&cat!("<", n)); for (k, v) in a { o.push_str(&cat!(" ", k, "=\"", esca(v), "\"")) } o.push('>') }
fn show(n: &Node, o: &mut String) { open(o, &n.name, n.attrs.iter().map(|(k, v)| (&k[..], &v[..]))); for k in &n.kids { match k { Kid::N(c) => show(c, o), Kid::T(t) | Kid::X(_, t) => o.push_str(&esc(t)) } } o.push_str(&cat!("</", n.name, ">")) }
fn own(n: &Node) -> Own { let mut s = String::new(); show(n, &mut s); s.truncate(s.len() - n.name.len() - 3); Own { seen: s } }
/// Takes the text of its element and leaves the reader on it; refuses everything but a digit below 5.
#[derive(PartialEq, Debug, Clone, Default)]
struct Low(u8);
impl YaDeserialize for Low {
  fn deserialize<R: Read>(r: &mut Deserializer<R>) -> Result<Self, String> {
    match r.next_event()? { Rd::StartElement { .. } => {} _ => return Err("not shown its element".into()) }
    match r.peek()? { Rd::Characters(t) => match num(t) { Some(v) if v < 5 => Ok(Low(v)), _ => Err(cat!("not low: ", t)) }, _ => Err("no text".into()) }
  }
}
/// Writes its element with an attribute, and leaves the writer in another state than it was given.
#[derive(PartialEq, Debug, Clone, Default)]
struct Put { k: Option<String>, t: String, mess: u8, fail: bool }
impl YaSerialize for Put {
  fn serialize<W: Write>(&self, w: &mut Serializer<W>) -> Result<(), String> {
    let skip = w.skip_start_end(); let name = w.get_start_event_name().unwrap_or_else(|| "own".into());
    if !skip { let e = Wr::start_element(&name[..]); let e = if let Some(k) = &self.k { e.attr("k", k) } else { e }; w.write(e).map_err(|e| e.to_string())? }
    if self.fail { return Err(cat!("no: ", self.t)) }
    w.write(Wr::characters(&self.t)).map_err(|e| e.to_string())?;
    if !skip { w.write(Wr::end_element()).map_err(|e| e.to_string())? }
    match self.mess { 1 => { w.set_skip_start_end(true); w.set_start_event_name(Some("mess".into())) } 2 => { w.set_skip_start_end(false); w.set_start_event_name(None) } 3 => { w.set_skip_start_end(!skip) } _ => {} } Ok(())
  }
  fn serialize_attributes(&self, mut a: Vec<OwnedAttribute>, n: Namespace) -> Result<(Vec<OwnedAttribute>, Namespace), String> { if let Some(k) = &self.k { a.push(OwnedAttribute::new(OwnedName::local("k"), k.as_str())) } Ok((a, n)) }
}
/// Writes two elements of its own names.
#[derive(PartialEq, Debug, Clone, Default)]
struct Two(String);
impl YaSerialize for Two {
  fn serialize<W: Write>(&self, w: &mut Serializer<W>) -> Result<(), String> { for n in [self.0.as_str(), "second"] { w.write(Wr::start_element(n)).map_err(|e| e.to_string())?; w.write(Wr::end_element()).map_err(|e| e.to_string())? } Ok(()) }
  fn serialize_attributes(&self, a: Vec<OwnedAttribute>, n: Namespace) -> Result<(Vec<OwnedAttribute>, Namespace), String> { Ok((a, n)) }
}
// ---------------------------------------------------------------- derived types around them
#[derive(YaDeserialize, PartialEq, Debug)]
struct Doc { a: Option<Own>, b: Vec<Own>, c: Option<u8>, #[yaserde(default = "none")] d: Own, #[yaserde(attribute = true)] i: Option<u8>, e: Option<String> }
fn none() -> Own { Own { seen: "none".into() } }
#[derive(YaDeserialize, PartialEq, Debug)]
struct Req { a: Own, b: Option<u8> }
#[derive(YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] N, #[yaserde(rename = "a")] A(Own), #[yaserde(rename = "b")] B(Vec<Own>), #[yaserde(rename = "c")] C(Option<Own>), #[yaserde(rename = "d")] D(u8) }
#[derive(YaDeserialize, PartialEq, Debug)]
struct He { e: Vec<Ev>, z: Option<u8> }
#[derive(YaDeserialize, PartialEq, Debug)]
struct Gn<T: YaDeserialize> { t: Option<T>, v: Vec<T>, z: Option<u8> }
#[derive(YaDeserialize, PartialEq, Debug)]
struct Lw { a: Option<Low>, b: Vec<Low>, c: Option<u8>, d: Option<String> }
#[derive(YaDeserialize, PartialEq, Debug, Default)]
enum El { #[default] N, #[yaserde(rename = "a")] A(Low), #[yaserde(rename = "c")] C(Option<Low>) }
#[derive(YaDeserialize, PartialEq, Debug)]
struct At { #[yaserde(attribute = true)] a: Option<Low>, #[yaserde(attribute = true)] b: Option<Own>, c: Option<u8> }
#[derive(YaDeserialize, PartialEq, Debug)]
struct Fl { a: Option<u8>, #[yaserde(flatten = true)] f: Rest, z: Option<u8> }
/// What is inside a flattened part, without the element that holds it.
#[derive(PartialEq, Debug)]
struct Rest(String);
impl YaDeserialize for Rest { fn deserialize<R: Read>(r: &mut Deserializer<R>) -> Result<Self, String> { let s = Own::deserialize(r)?.seen; Ok(Rest(s[s.find('>').unwrap() + 1..].into())) } }
#[derive(YaSerialize, PartialEq, Debug)]
#[yaserde(rename = "w")]
struct Wd { a: u8, p: Put, o: Option<Put>, v: Vec<Put>, s: String, n: In }
#[derive(YaSerialize, PartialEq, Debug)]
struct In { x: u8 }
#[derive(YaSerialize, PartialEq, Debug)]
#[yaserde(rename = "w")]
struct Wa { #[yaserde(attribute = true)] p: Put, #[yaserde(attribute = true)] o: Option<Put>, z: u8, n: In }
#[derive(YaSerialize, PartialEq, Debug)]
#[yaserde(rename = "w")]
struct Wf { #[yaserde(attribute = true)] i: u8, #[yaserde(flatten = true)] p: Put, z: u8, n: In }
#[derive(YaSerialize, PartialEq, Debug)]
#[yaserde(rename = "w")]
enum We { A(Put), B(Vec<Put>), C(Option<Put>) }
#[derive(YaSerialize, PartialEq, Debug)]
#[yaserde(rename = "w")]
struct Wt { a: u8, t: Two, v: Vec<Two>, n: In, e: We }
type Q<T> = Result<T, ()>;
fn sub<T>(n: &Node, name: &str, f: impl Fn(&Node) -> T) -> Option<T> { n.all(name).last().map(f) }
fn subs<T>(n: &Node, name: &str, f: impl Fn(&Node) -> T) -> Vec<T> { n.all(name).map(f).collect() }
fn rdoc(n: &Node) -> Q<Doc> { Ok(Doc { a: sub(n, "a", own), b: subs(n, "b", own), c: n.last("c", num), d: sub(n, "d", own).unwrap_or_else(none), i: n.get("i").and_then(num), e: n.last("e", string) }) }
fn rev(n: &Node) -> Ev { if let Some(c) = n.all("a").last() { Ev::A(own(c)) } else if n.all("b").next().is_some() { Ev::B(subs(n, "b", own)) } else if let Some(c) = n.all("c").last() { Ev::C(Some(own(c))) } else { Ev::N } }
fn rgen(n: &Node) -> Gn<Own> { Gn { t: sub(n, "t", own), v: subs(n, "v", own), z: n.last("z", num) } }
fn low(n: &Node) -> Q<u8> { n.plain().and_then(|p| num(&p)).filter(|v| *v < 5).ok_or(()) }
fn put(n: &str, mess: u8) -> Put { let k = opt("k", || vis::<1>("kv")); Put { k, t: any::<1>(n), mess, fail: false } }
/// the element a `Put` stands for
fn pel(n: &str, p: &Put) -> String { let k = match &p.k { Some(k) => cat!(" k=\"", esca(k), "\""), None => String::new() }; cat!("<", n, k, ">", esc(&p.t), "</", n, ">") }
fn plain(t: &str) -> Put { Put { k: None, t: t.into(), mess: 0, fail: false } }
harnesses! {
  // ---- reading: every element of the field is shown whole, once, and nothing else is
  fn q_tree() { let n = tree(5); agrees(&n, rdoc(&n).ok()) }
  fn q_shape() { let n = shape(pick("s", &["(A(@(d)t(d))(d))", "(B(@@d)B()B((d)(d)))", "(@A(d)(d))", "(D(D(d))(d))", "(A(A(A(d)))(d)B((d)))", "((A(d)B(d))A(d))", "(C(d)A(C(d))C(d))"])); agrees(&n, rdoc(&n).ok()) }
  fn q_text() { let c = vis::<2>("c"); let k = name::<1>("k"); let n = Node::new("r").kid(Node::new(&k).attr("q", &c).text(&c).kid(Node::new("b").text(&c)).text("z")).kid(Node::new("c").text("4")); if k != "c" && k != "e" && k != "i" { agrees(&n, rdoc(&n).ok()) } }
  fn q_required() { let n = tree(4); let want = n.all("a").last().map(|c| Req { a: own(c), b: n.last("b", num) }); agrees(&n, want) }
  fn q_generic() { let n = tree(5); agrees(&n, Some(rgen(&n))) }
  fn q_root() { let n = tree(5); agrees(&n, Some(own(&n))) }
  fn q_enum() { let v = name::<1>("v"); assume(v != "d" && v != "N"); let c = |x: &str| Node::new(x).kid(shape("((d)@t)")); let n = choice("n", 4); let mut e = Node::new("r"); for _ in 0..n { e = e.kid(c(&v)) } if flag("after") { e = e.kid(Node::new("q").kid(Node::new("a").text("1"))) } agrees(&e, Some(rev(&e))) }
  fn q_enum_list() { let k1 = pick("k1", &["a", "b", "c"]); let k2 = pick("k2", &["a", "b", "c"]); let e1 = Node::new("e").kid(Node::new(k1).kid(shape("(d)"))); let e2 = Node::new("e").kid(Node::new(k2).kid(shape("E((d))"))).kid(Node::new(k2).text("x")); let n = Node::new("r").kid(e1).kid(Node::new("z").text("1")).kid(e2).kid(Node::new(&name::<1>("z")).text("2")); if n.all("e").count() == 2 { agrees(&n, Some(He { e: subs(&n, "e", rev), z: n.last("z", num) })) } }
  fn q_flatten() { let a = name::<1>("a"); let b = name::<1>("b"); let n = Node::new("r").kid(Node::new(&a).kid(shape("(@d)"))).kid(Node::new("z").text("3")).kid(Node::new(&b).text("2")); let mut rest = String::new(); for k in &n.kids { if let Kid::N(c) = k { if c.name != "a" && c.name != "z" { show(c, &mut rest) } } } agrees(&n, Some(Fl { a: n.last("a", num), f: Rest(rest), z: n.last("z", num) })) }
  fn q_attr() { let d = name::<1>("d"); let (l, v) = digit("l"); let l = l.to_string(); let x = cat!("<r a=\"", l, "\" b=\"", d, "\"><c>3</c></r>"); let r = de::<At>(&x); if v < 5 { match r { Ok(r) => { check!(r.a == Some(Low(v)) && r.c == Some(3), "value read differs"); check!(r.b.map(|b| b.seen.ends_with(&cat!(">", d))) == Some(true), "value read differs") } Err(_) => violation("a document of this type was refused") } } else { check!(r.err() == Some(cat!("not low: ", l)), "the refusal of a field's own type was lost") } cover(0) }
  // ---- a reader that stops on its text, and its refusals
  fn q_low() { let n = tree(3); for k in ["a", "b"] { for c in n.all(k) { assume(c.plain().is_some()) } } let mut bad = None; for k in &n.kids { if let Kid::N(c) = k { if (c.name == "a" || c.name == "b") && bad.is_none() && low(c).is_err() { bad = Some(match c.plain() { Some(t) if !t.is_empty() => cat!("not low: ", t), _ => "no text".into() }) } } } let x = n.xml(); observe(x.as_bytes()); match (de::<Lw>(&x), bad) { (Ok(v), None) => check!(v == Lw { a: sub(&n, "a", |c| Low(low(c).unwrap())), b: subs(&n, "b", |c| Low(low(c).unwrap())), c: n.last("c", num), d: n.last("d", string) }, "value read differs"), (Err(e), Some(b)) => check!(e == b, "the refusal of a field's own type was lost"), (Ok(_), _) => violation("the refusal of a field's own type was lost"), (Err(_), _) => violation("a document of this type was refused") } cover(0) }
  fn q_low_enum() { let k = pick("k", &["a", "c"]); let (d, v) = digit("d"); let d = d.to_string(); let x = cat!("<r><", k, ">", d, "</", k, "></r>"); match de::<El>(&x) { Ok(e) => check!(v < 5 && e == if k == "a" { El::A(Low(v)) } else { El::C(Some(Low(v))) }, "value read differs"), Err(e) => { check!(v >= 5, "a document of this type was refused"); check!(e == cat!("not low: ", d), "the refusal of a field's own type was lost") } } cover(0) }
  fn q_low_list() { let n = choice("n", 4); let bad = choice("bad", 5); let mut x = String::from("<r><c>1</c>"); for i in 0..n { x.push_str(if i == bad { "<b>7</b>" } else { "<b>2</b>" }) } x.push_str("<d>z</d><a>3</a></r>"); match de::<Lw>(&x) { Ok(v) => { check!(bad >= n, "the refusal of a field's own type was lost"); check!(v.b.len() == n as usize && v.a == Some(Low(3)) && v.c == Some(1) && v.d.as_deref() == Some("z"), "value read differs") } Err(e) => check!(bad < n && e == "not low: 7", "the refusal of a field's own type was lost, or a document of this type was refused") } cover(0) }
  // ---- writing: told the name of its field; neither its state nor its siblings are seen by others
  fn q_write() { let m = choice("mess", 4); let v = Wd { a: 1, p: put("p", m), o: opt("o", || put("ov", m)), v: list("v", 2, || Put { k: Some("q".into()), t: "i".into(), mess: m, fail: false }), s: "s".into(), n: In { x: 2 } }; let mut e = cat!("<w><a>1</a>", pel("p", &v.p)); if let Some(o) = &v.o { e.push_str(&pel("o", o)) } for i in &v.v { e.push_str(&pel("v", i)) } e.push_str("<s>s</s><n><x>2</x></n></w>"); writes(&v, &doc(&e)) }
  fn q_write_attr() { let m = choice("mess", 4); let c = vis::<1>("c"); assume(c != "<" && c != ">" && c != "&"); let v = Wa { p: Put { k: None, t: c.clone(), mess: m, fail: false }, o: opt("o", || plain("o")), z: 3, n: In { x: 2 } }; let mut e = cat!("<w p=\"", esca(&c), "\""); if v.o.is_some() { e.push_str(" o=\"o\"") } e.push_str("><z>3</z><n><x>2</x></n></w>"); writes(&v, &doc(&e)) }
  fn q_write_flat() { let m = choice("mess", 4); let v = Wf { i: 9, p: put("p", m), z: 3, n: In { x: 2 } }; let mut e = String::from("<w i=\"9\""); if let Some(k) = &v.p.k { e.push_str(&cat!(" k=\"", esca(k), "\"")) } e.push_str(&cat!(">", esc(&v.p.t), "<z>3</z><n><x>2</x></n></w>")); writes(&v, &doc(&e)) }
  fn q_write_enum() { let m = choice("mess", 4); let (v, e) = match choice("v", 3) { 0 => { let p = put("p", m); let e = pel("A", &p); (We::A(p), e) } 1 => { let l = list("l", 2, || put("p", m)); let mut e = String::new(); for i in &l { e.push_str(&pel("B", i)) } (We::B(l), e) } _ => { let o = opt("o", || put("p", m)); let e = match &o { Some(p) => pel("C", p), None => String::new() }; (We::C(o), e) } }; if e.is_empty() { let o = ser(&v); check!(o == doc("<w />") || o == doc("<w></w>"), "output is not the prescribed document"); cover(0) } else { writes(&v, &doc(&cat!("<w>", e, "</w>"))) } }
  fn q_write_root() { let p = put("p", 0); writes(&p, &doc(&pel("own", &p))) }
  fn q_write_two() { let n = name::<2>("n"); let c = choice("c", 3); let t = || Two(n.clone()); let te = cat!("<", n, " /><second />"); let e = cat!("<w><a>1</a>", te, te.repeat(c as usize), "<n><x>2</x></n><e><A>z</A></e></w>"); writes(&Wt { a: 1, t: t(), v: (0..c).map(|_| t()).collect(), n: In { x: 2 }, e: We::A(plain("z")) }, &doc(&e)) }
  fn q_write_fail() { // a refusal to write is the result, wherever it stands
    let t = vis::<1>("t"); let bad = Put { k: None, t: t.clone(), mess: 0, fail: true }; let ok = || plain("k"); let r = match choice("at", 10) { 0 => yaserde::ser::to_string(&Wd { a: 1, p: bad, o: None, v: vec![], s: "s".into(), n: In { x: 2 } }), 1 => yaserde::ser::to_string(&Wd { a: 1, p: ok(), o: Some(bad), v: vec![], s: "s".into(), n: In { x: 2 } }), 2 => yaserde::ser::to_string(&Wd { a: 1, p: ok(), o: None, v: vec![ok(), bad, ok()], s: "s".into(), n: In { x: 2 } }), 3 => yaserde::ser::to_string(&Wa { p: bad, o: None, z: 3, n: In { x: 2 } }), 4 => yaserde::ser::to_string(&Wa { p: ok(), o: Some(bad), z: 3, n: In { x: 2 } }), 5 => yaserde::ser::to_string(&Wf { i: 9, p: bad, z: 3, n: In { x: 2 } }), 6 => yaserde::ser::to_string(&We::A(bad)), 7 => yaserde::ser::to_string(&We::B(vec![ok(), bad])), 8 => yaserde::ser::to_string(&We::C(Some(bad))), _ => yaserde::ser::to_string(&bad) }; check!(r == Err(cat!("no: ", t)), "the refusal of a field's own type was lost"); cover(0) }
  fn t_tree() { let n = tree(6); agrees(&n, rdoc(&n).ok()) }
  fn t_generic() { let n = tree(6); agrees(&n, Some(rgen(&n))) }
  fn t_root() { let n = tree(6); agrees(&n, Some(own(&n))) }
}
