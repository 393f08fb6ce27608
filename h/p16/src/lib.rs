use util::*;
use yaserde::__xml::name::OwnedName;
use yaserde::__xml::reader::XmlEvent;
use yaserde::de::Deserializer;
#[derive(Clone, PartialEq, Debug)]
enum Ev { S(String), T(String), E(String), Eof }
type D<'a> = Deserializer<&'a [u8]>;
fn conv(e: &XmlEvent) -> Option<Ev> { Some(match e { XmlEvent::StartElement { name, .. } => Ev::S(name.local_name.clone()), XmlEvent::EndElement { name } => Ev::E(name.local_name.clone()), XmlEvent::Characters(t) => Ev::T(t.clone()), XmlEvent::EndDocument => Ev::Eof, _ => return None }) }
/// A document and the events it consists of, written side by side.
struct Doc { xml: String, ev: Vec<Ev> }
impl Doc {
  fn new() -> Doc { Doc { xml: String::new(), ev: vec![] } }
  fn s(&mut self, n: &str) { self.xml.push_str(&cat!("<", n, ">")); self.ev.push(Ev::S(n.into())) }
  fn e(&mut self, n: &str) { self.xml.push_str(&cat!("</", n, ">")); self.ev.push(Ev::E(n.into())) }
  fn t(&mut self, t: &str) { self.xml.push_str(&esc(t)); self.ev.push(Ev::T(t.into())) }
  fn empty(&mut self, n: &str) { self.xml.push_str(&cat!("<", n, "/>")); self.ev.push(Ev::S(n.into())); self.ev.push(Ev::E(n.into())) }
  fn x(&mut self, x: &str) { self.xml.push_str(x) }
  fn end(mut self) -> Doc { self.ev.push(Ev::Eof); self }
}
fn node(d: &mut Doc, k: u8) { match k { 0 => d.empty("b"), 1 => { d.s("b"); d.t("t"); d.e("b") } 2 => { d.s("b"); d.s("a"); d.e("a"); d.e("b") } 3 => { d.s("a"); d.t("u"); d.s("b"); d.t("v"); d.e("b"); d.t("w"); d.e("a") } 4 => d.t("x"), 5 => { d.x("<!-- c --> <?p d?>\n"); d.empty("c") } _ => { d.s("a"); d.empty("a"); d.empty("a"); d.e("a") } } }
fn gen() -> Doc { let mut d = Doc::new(); if flag("decl") { d.x("<?xml version=\"1.0\"?>\n<!-- c -->") } d.s("a"); let k1 = choice("n1", 8); if k1 < 7 { node(&mut d, k1); let k2 = choice("n2", 8); if k2 < 7 && !(k1 == 4 && k2 == 4) { node(&mut d, k2) } } d.e("a"); d.end() }
fn fixed(k: u8) -> Doc { let mut d = Doc::new(); d.s("a"); match k { 0 => { node(&mut d, 3); node(&mut d, 1) } 1 => { node(&mut d, 6); node(&mut d, 0) } 2 => { node(&mut d, 2); node(&mut d, 5); d.t("x") } 3 => { d.t("x"); node(&mut d, 3) } _ => {} } d.e("a"); d.end() }
fn delta(e: &Ev) -> isize { match e { Ev::S(_) => 1, Ev::E(_) => -1, _ => 0 } }
fn depth_of(ev: &[Ev]) -> usize { ev.iter().map(delta).sum::<isize>() as usize }
struct St { pos: usize }
impl St {
  fn inv(&self, r: &D, d: &Doc) { check!(r.depth() == depth_of(&d.ev[..self.pos]), "depth is not opened minus closed elements") }
  /// one operation; false ends the sequence
  fn op(&mut self, r: &mut D, d: &Doc, op: u8) -> bool {
    if self.pos >= d.ev.len() { return false }
    match op {
      0 => { let e = r.peek().map(|e| conv(e)); check!(e == Ok(Some(d.ev[self.pos].clone())), "peek does not show the next event"); let e = r.peek().map(|e| conv(e)); check!(e == Ok(Some(d.ev[self.pos].clone())), "peek consumed an event"); }
      1 => { let e = r.next_event().map(|e| conv(&e)); check!(e == Ok(Some(d.ev[self.pos].clone())), "the event taken is not the next one"); self.pos += 1 }
      2 => { // skip the rest of the current element
        let dep = depth_of(&d.ev[..self.pos]); let mut seen = vec![]; let q = r.skip_element(|e| seen.push(conv(e))); if dep == 0 { check!(q.is_err(), "skipping outside any element succeeded"); return false }
        check!(q.is_ok(), "skipping an element failed"); let from = self.pos; let mut cur = dep as isize; while cur >= dep as isize { cur += delta(&d.ev[self.pos]); self.pos += 1 }
        check!(seen.len() == self.pos - from && seen.iter().zip(&d.ev[from..self.pos]).all(|(a, b)| a.as_ref() == Some(b)), "skipping did not report exactly the rest of the element") }
      3 | 4 | 5 => { // read_inner_value with a body that takes nothing, one event, or one event and fails
        let start = d.ev[self.pos].clone(); let mut inner = None; let res = r.read_inner_value::<u8, _>(|r| { match op { 3 => {} _ => inner = Some(r.next_event().map(|e| conv(&e))) } if op == 5 { Err("no".into()) } else { Ok(7) } });
        let Ev::S(n) = start else { check!(res.is_err(), "content was read although no element starts here"); return false };
        self.pos += 1; if op != 3 { check!(inner == Some(Ok(Some(d.ev[self.pos].clone()))), "the body does not see the element's content"); self.pos += 1 } if op == 5 { check!(res == Err("no".to_string()), "an error of the body was lost"); self.inv(r, d); return true }
        // inside the body an End event was already taken when the element was empty
        let nx = d.ev.get(self.pos); let good = nx == Some(&Ev::E(n)); check!(res.is_ok() == good, "a closing tag was accepted or refused wrongly"); if !good { return false } check!(res == Ok(7), "the value read was lost"); self.pos += 1 }
      6 => { let c = name::<1>("n"); let q = r.expect_end_element(&OwnedName::local(c.clone())); let good = d.ev[self.pos] == Ev::E(c); check!(q.is_ok() == good, "a closing tag was accepted or refused wrongly"); if !good { return false } self.pos += 1 }
      _ => { // nested bodies
        let start = d.ev[self.pos].clone(); let (Ev::S(n), Some(Ev::S(m))) = (start, d.ev.get(self.pos + 1).cloned()) else { return true }; let res = r.read_inner_value::<u8, _>(|r| r.read_inner_value::<u8, _>(|r| { let _ = r.peek(); Ok(3) })); let good = d.ev[self.pos + 2] == Ev::E(m) && d.ev[self.pos + 3] == Ev::E(n); check!(res.is_ok() == good, "a closing tag was accepted or refused wrongly"); if !good { return false } self.pos += 4 }
    }
    self.inv(r, d); true
  }
}
fn run(d: Doc, n: usize, ops: u8) { observe(d.xml.as_bytes()); let mut r = Deserializer::new_from_reader(d.xml.as_bytes()); let mut s = St { pos: 0 }; check!(r.depth() == 0, "a new cursor has a depth"); for _ in 0..n { let o = choice("op", ops); if !s.op(&mut r, &d, o) { break } } cover(0) }
harnesses! {
  fn q_ops3() { run(gen(), 3, 8) }
  fn q_ops4() { run(fixed(choice("doc", 5)), 4, 8) }
  fn q_ops5() { let d = fixed(choice("doc", 5)); run(d, 5, 4) }
  fn q_start() { let n = choice("skip", 7); let d = gen(); observe(d.xml.as_bytes()); let mut r = Deserializer::new_from_reader(d.xml.as_bytes()); let mut s = St { pos: 0 }; for _ in 0..n { if s.pos + 1 < d.ev.len() { s.op(&mut r, &d, 1); } } for _ in 0..2 { let o = choice("op", 8); if !s.op(&mut r, &d, o) { break } } cover(0) }
  fn q_skip_all() { let d = gen(); let mut r = Deserializer::new_from_reader(d.xml.as_bytes()); let mut s = St { pos: 0 }; let n = choice("n", 6); for _ in 0..=n { if s.pos + 1 < d.ev.len() { if flag("p") { s.op(&mut r, &d, 0); } s.op(&mut r, &d, 1); } } if s.op(&mut r, &d, 2) { while s.op(&mut r, &d, 1) {} } cover(0) }
  fn q_walk() { let d = gen(); let mut r = Deserializer::new_from_reader(d.xml.as_bytes()); let mut s = St { pos: 0 }; let p = flag("peek"); while s.pos < d.ev.len() { if p { s.op(&mut r, &d, 0); } s.op(&mut r, &d, 1); } check!(r.depth() == 0, "depth is not zero at the end"); cover(0) }
  fn q_names() { let a = name::<2>("a"); let b = name::<2>("b"); let c = name::<2>("c"); let x = cat!("<", a, "><", b, ">t</", b, "></", a, ">"); let mut r = Deserializer::new_from_reader(x.as_bytes()); check!(r.next_event().is_ok() && r.next_event().is_ok() && r.next_event().is_ok(), "a document was refused"); check!(r.expect_end_element(&OwnedName::local(c.clone())).is_ok() == (c == b), "a closing tag was accepted or refused wrongly"); if c == b { check!(r.expect_end_element(&OwnedName::local(a)).is_ok() && r.depth() == 0, "a closing tag was accepted or refused wrongly") } cover(0) }
  fn q_ns_names() { let c = vis::<2>("c"); for b in c.bytes() { assume(b != b'<' && b != b'&' && b != b'"' && b != b'\'' && b != b'>') } let ns = flag("ns"); let x = if ns { "<p:a xmlns:p='ab'></p:a>" } else { "<a></a>" }; let mut r = Deserializer::new_from_reader(x.as_bytes()); check!(r.next_event().is_ok(), "a document was refused"); let want = if flag("q") { OwnedName::qualified("a", c.clone(), None::<String>) } else { OwnedName::qualified("a", c.clone(), Some("p")) }; let ok = r.expect_end_element(&want).is_ok(); if ok { check!(ns && c == "ab", "a closing tag was accepted or refused wrongly") } let mut r = Deserializer::new_from_reader(x.as_bytes()); let XmlEvent::StartElement { name, .. } = r.next_event().unwrap() else { violation("not an element") }; check!(r.expect_end_element(&name).is_ok(), "a closing tag was accepted or refused wrongly"); cover(0) }
  fn q_text() { let t = txt::<3>("t"); let x = cat!("<a>", esc(&t), "</a>"); let mut r = Deserializer::new_from_reader(x.as_bytes()); let v = r.read_inner_value::<String, _>(|r| match r.next_event()? { XmlEvent::Characters(s) => Ok(s), _ => Err("no".into()) }); check!(v == Ok(t), "the content read is not the element's"); check!(r.depth() == 0 && r.peek() == Ok(&XmlEvent::EndDocument), "not at the end after the root"); cover(0) }
  fn q_attrs() { let v = any::<1>("v"); let x = cat!("<a k=\"", esca(&v), "\"/>"); let mut r = Deserializer::new_from_reader(x.as_bytes()); let p = r.peek().cloned(); let n = r.next_event(); check!(p == n, "peek does not show the next event"); let Ok(XmlEvent::StartElement { attributes, .. }) = n else { violation("not an element") }; check!(attributes.len() == 1 && attributes[0].value == v, "attribute value differs"); cover(0) }
  fn q_cut() { // operations on a cut document fail rather than invent events
    let d = fixed(choice("doc", 5)); let at = choice("at", d.xml.len() as u8) as usize; let x = &d.xml[..at]; observe(x.as_bytes()); let mut r = Deserializer::new_from_reader(x.as_bytes()); let mut pos = 0; let skip = choice("op", 3); loop { let res = if skip == 1 && pos == 1 { let dep = r.depth(); let q = r.skip_element(|_| {}); check!(dep == 1, "depth is not opened minus closed elements"); check!(q.is_err(), "skipping succeeded although the element is not closed"); break } else if skip == 2 && pos == 1 { let q = r.peek().map(|e| conv(e)); let n = r.next_event(); check!(q.is_ok() == n.is_ok(), "peek does not show the next event"); n } else { r.next_event() }; match res { Ok(e) => { let e = conv(&e); check!(e != Some(Ev::Eof), "the document ended although the root is not closed"); let m = &d.ev[pos]; match (&e, m) { (Some(Ev::T(a)), Ev::T(b)) => check!(b.starts_with(&a[..]), "an event was invented"), (a, b) => check!(a.as_ref() == Some(b), "an event was invented") } pos += 1 } Err(_) => break } check!(r.depth() == depth_of(&d.ev[..pos]), "depth is not opened minus closed elements"); } cover(0) }
  fn q_deep() { let n = pick("n", &[5usize, 40]); let k = choice("k", 5) as usize; let x = cat!("<a>".repeat(n), "</a>".repeat(n)); let mut r = Deserializer::new_from_reader(x.as_bytes()); for i in 0..=k.min(n - 1) { check!(r.next_event().is_ok() && r.depth() == i + 1, "depth is not opened minus closed elements") } let mut c = 0; let dep = r.depth(); check!(r.skip_element(|_| c += 1).is_ok(), "skipping an element failed"); check!(r.depth() == dep - 1 && c == 2 * (n - dep) + 1, "skipping did not report exactly the rest of the element"); cover(0) }
  fn t_ops5() { run(gen(), 5, 8) }
  fn t_ops6() { run(fixed(choice("doc", 5)), 6, 8) }
}
