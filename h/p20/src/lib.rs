use util::*;
use yaserde::ser::{serialize_with_writer, serialize_with_writer_content, to_string, to_string_content, Config};
use yaserde::PrimitiveYaSerde;
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Leaf { s: Option<String>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Text { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Nest { l: Option<Leaf>, e: Option<Ev>, v: Vec<Text> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Void {}
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Leaf), D(Vec<i16>), E(Option<Leaf>), F(Text), #[yaserde(rename = "gg")] G(Vec<Leaf>), H(bool) }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, P(String), Q(Leaf), W(Vec<Leaf>) }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fl { fa: Option<String>, fb: Option<Leaf>, #[yaserde(attribute = true)] fk: Option<u8> }
#[derive(PrimitiveYaSerde, Clone, PartialEq, Debug)]
struct Wr(u8);
/// One struct per kind of part, one with all of them in this order, one with the same in reverse.
macro_rules! parts { ($( $i:literal $o:ident $f:ident ($($a:tt)*) $ty:ty, $none:expr ; )*) => {
  $( #[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)] struct $o { #[yaserde($($a)*)] $f: $ty } )*
  fn empty() -> Fwd { Fwd { $( $f: $none ),* } }
  fn fwd(v: &Fwd) -> String { let mut s = String::new(); $( s.push_str(&inner(&$o { $f: v.$f.clone() })); )* s }
  fn rev(v: &Fwd) -> String { let mut l: Vec<String> = vec![]; $( l.push(inner(&$o { $f: v.$f.clone() })); )* l.reverse(); l.concat() }
  fn to_rev(v: Fwd) -> Rev { Rev { $( $f: v.$f ),* } }
  fn one(i: u8, v: &Fwd) -> String { match i { $( $i => { let o = $o { $f: v.$f.clone() }; let full = ser(&o); let n = stringify!($o); let body = full.strip_prefix(DECL).unwrap(); between(body, n) } )* _ => violation("kind") } }
} }
parts! {
  0 Oi i (rename = "i") Option<i32>, None; 1 Os s (rename = "s") Option<String>, None; 2 Ob b (rename = "b") Option<bool>, None; 3 Ov v (rename = "v") Vec<u8>, vec![]; 4 Ot t (rename = "t") Vec<String>, vec![];
  5 Ol l (rename = "l") Option<Leaf>, None; 6 Om m (rename = "m") Vec<Leaf>, vec![]; 7 Ox x (rename = "x") Option<Text>, None; 8 On n (rename = "n") Option<Nest>, None; 9 Oo o (rename = "o") Option<Void>, None;
  10 Oc c (rename = "c") Option<Cd>, None; 11 Oe e (rename = "e") Option<Ev>, None; 12 Og g (rename = "g") Vec<Ev>, vec![]; 13 Oh h (rename = "h") Option<Tg>, None; 14 Ow w (rename = "w") Option<Wr>, None; 15 Oy y (rename = "y") Vec<Wr>, vec![];
  16 Of f (flatten = true) Option<Fl>, None; 17 Oq q (flatten = true) Fe, Fe::N;
}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fwd { i: Option<i32>, s: Option<String>, b: Option<bool>, v: Vec<u8>, t: Vec<String>, l: Option<Leaf>, m: Vec<Leaf>, x: Option<Text>, n: Option<Nest>, o: Option<Void>, c: Option<Cd>, e: Option<Ev>, g: Vec<Ev>, h: Option<Tg>, w: Option<Wr>, y: Vec<Wr>, #[yaserde(flatten = true)] f: Option<Fl>, #[yaserde(flatten = true)] q: Fe }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Rev { #[yaserde(flatten = true)] q: Fe, #[yaserde(flatten = true)] f: Option<Fl>, y: Vec<Wr>, w: Option<Wr>, h: Option<Tg>, g: Vec<Ev>, e: Option<Ev>, c: Option<Cd>, o: Option<Void>, n: Option<Nest>, x: Option<Text>, m: Vec<Leaf>, l: Option<Leaf>, t: Vec<String>, v: Vec<u8>, b: Option<bool>, s: Option<String>, i: Option<i32> }
fn inner<T: YaSerialize>(v: &T) -> String { match to_string_content(v) { Ok(s) => s, Err(_) => violation("serialization failed") } }
/// What stands between the tags of an element, independently of its attributes.
fn between(body: &str, n: &str) -> String { let open = body.find('>').unwrap(); check!(body.starts_with(&cat!("<", n)[..]), "the root has another name"); if body.ends_with(" />") && open + 1 == body.len() { return String::new() } let close = cat!("</", n, ">"); check!(body.ends_with(&close[..]), "the root has another name"); body[open + 1..body.len() - close.len()].to_string() }
fn leaf(k: u8, t: &str) -> Leaf { match k { 0 => Leaf { s: None, k: None }, 1 => Leaf { s: Some(t.into()), k: None }, _ => Leaf { s: None, k: Some(4) } } }
fn ev(k: u8, t: &str) -> Ev { match k { 0 => Ev::A, 1 => Ev::B(t.into()), 2 => Ev::C(leaf(1, t)), 3 => Ev::D(vec![5, -6]), 4 => Ev::E(Some(leaf(2, t))), 5 => Ev::F(Text { k: Some(1), t: t.into() }), 6 => Ev::G(vec![leaf(0, t), leaf(1, t)]), _ => Ev::H(true) } }
/// Puts one of its values into part i.
fn fill(v: &mut Fwd, i: u8, t: &str, q: &str) {
  match i {
    0 => v.i = Some(-3), 1 => v.s = Some(t.into()), 2 => v.b = Some(true), 3 => v.v = vec![1, 2], 4 => v.t = vec![t.into(), "z".into()], 5 => v.l = Some(leaf(choice(q, 3), t)), 6 => v.m = vec![leaf(choice(q, 3), t), leaf(1, "k")], 7 => v.x = Some(Text { k: None, t: t.into() }),
    8 => v.n = Some(match choice(q, 4) { 0 => Nest { l: None, e: None, v: vec![] }, 1 => Nest { l: Some(leaf(1, t)), e: None, v: vec![] }, 2 => Nest { l: None, e: Some(Ev::C(leaf(0, t))), v: vec![] }, _ => Nest { l: None, e: None, v: vec![Text { k: None, t: t.into() }] } }),
    9 => v.o = Some(Void {}), 10 => v.c = Some(Cd { c: t.into() }), 11 => v.e = Some(ev(choice(q, 8), t)), 12 => { let a = choice(q, 8); v.g = vec![ev(a, t), ev(choice(q, 8), "g")] } 13 => v.h = Some(if flag(q) { Tg::A } else { Tg::B }), 14 => v.w = Some(Wr(7)), 15 => v.y = vec![Wr(8), Wr(9)],
    16 => v.f = Some(match choice(q, 3) { 0 => Fl { fa: Some(t.into()), fb: None, fk: None }, 1 => Fl { fa: None, fb: Some(leaf(1, t)), fk: None }, _ => Fl { fa: None, fb: None, fk: Some(2) } }), _ => v.q = match choice(q, 3) { 0 => Fe::P(t.into()), 1 => Fe::Q(leaf(1, t)), _ => Fe::W(vec![leaf(2, t), leaf(0, t)]) },
  }
}
const K: u8 = 18;
/// Every part is rendered in the whole as it is alone, in both orders.
fn whole(v: Fwd, rt: bool) {
  let a = ser(&v); let w = fwd(&v); check!(between(a.strip_prefix(DECL).unwrap(), "Fwd") == w, "a part is written differently next to others"); check!(inner(&v) == w, "the content alone differs from the inside");
  if rt { match de::<Fwd>(&a) { Ok(mut b) => { if v.f.is_none() { check!(b.f == None || b.f == Some(Fl { fa: None, fb: None, fk: None }), "value changed in a round trip"); b.f = None } check!(b == v, "value changed in a round trip") } Err(_) => violation("own output refused") } }
  let w = rev(&v); let r = to_rev(v); let a = ser(&r); check!(between(a.strip_prefix(DECL).unwrap(), "Rev") == w, "a part is written differently next to others"); check!(inner(&r) == w, "the content alone differs from the inside"); cover(0)
}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Mand { i: i32, s: String, l: Leaf, e: Ev, b: bool, g: Ev, x: Text, w: Wr, t: Tg, d: Void, #[yaserde(flatten = true)] f: Fl, z: f64 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Attrs { #[yaserde(attribute = true)] a: Option<String>, #[yaserde(attribute = true)] b: Option<u8>, #[yaserde(flatten = true)] f: Option<Fl>, #[yaserde(attribute = true, rename = "cc")] c: Option<bool>, #[yaserde(attribute = true)] d: i8, n: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<String>, #[yaserde(prefix = "n")] l: Vec<NsIn>, e: Option<NsEv>, #[yaserde(prefix = "n")] u: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n")] s: Option<String> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
enum NsEv { #[default] A, #[yaserde(prefix = "n")] B(String), #[yaserde(prefix = "n")] C(NsIn) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct NsOne { x: Ns, y: Ns, z: Vec<NsIn> }
fn ns(k: u8) -> Ns { let i = |b: bool| NsIn { s: if b { Some("q".into()) } else { None } }; match k { 0 => Ns { s: None, l: vec![], e: None, u: None }, 1 => Ns { s: Some("a".into()), l: vec![], e: None, u: Some(1) }, 2 => Ns { s: None, l: vec![i(true), i(false)], e: None, u: None }, 3 => Ns { s: None, l: vec![], e: Some(NsEv::B("b".into())), u: Some(1) }, 4 => Ns { s: None, l: vec![], e: Some(NsEv::C(i(true))), u: None }, _ => Ns { s: None, l: vec![i(false)], e: Some(NsEv::A), u: None } } }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct C1 { #[yaserde(attribute = true)] val: String }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct C2 { #[yaserde(attribute = true)] num: u8, t: String, l: Option<Leaf>, e: Ev }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
enum Fv { #[default] U, #[yaserde(flatten = true)] C1(C1), #[yaserde(flatten = true)] C2(C2), S(String), L(Leaf) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fh { a: Option<Leaf>, e: Fv, #[yaserde(flatten = true)] f: Option<Fl>, v: Vec<Fv>, n: Option<Nest>, o: Option<Fv>, #[yaserde(flatten = true)] q: Fq, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
enum Fq { #[default] N, #[yaserde(flatten = true)] C1(C1), A(Leaf) }
fn fv(k: u8, t: &str) -> Fv { match k { 0 => Fv::U, 1 => Fv::C1(C1 { val: t.into() }), 2 => Fv::C2(C2 { num: 1, t: t.into(), l: Some(leaf(1, "l")), e: Ev::C(leaf(2, "")) }), 3 => Fv::S(t.into()), _ => Fv::L(leaf(1, t)) } }
fn x_fv(v: &Fv) -> String { match v { Fv::U => "U".into(), Fv::C1(c) => cat!("<C1 val=\"", esca(&c.val), "\" />"), Fv::C2(c) => cat!("<C2 num=\"1\"><t>", esc(&c.t), "</t><l><s>l</s></l><e><C k=\"4\" /></e></C2>"), Fv::S(s) => cat!("<S>", esc(s), "</S>"), Fv::L(l) => cat!("<L><s>", esc(l.s.as_deref().unwrap()), "</s></L>") } }
harnesses! {
  fn q_words() { let mut v = empty(); let i = choice("i", K); let j = (i + 1) % K; let w = word("w"); assume(w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')); fill(&mut v, i, &w, "a"); fill(&mut v, j, "u", "b"); whole(v, true) }
  fn q_alone() { let mut v = empty(); let t = vis::<1>("t"); let i = choice("i", K); fill(&mut v, i, &t, "a"); let want = one(i, &v); let f = fwd(&v); let want = if i == 17 { want } else { cat!(want, "N") }; check!(f == want, "the content alone differs from the inside"); cover(0) }
  fn q_pairs() { let mut v = empty(); let i = choice("i", K); let j = choice("j", K); assume(i < j); fill(&mut v, i, "t", "a"); fill(&mut v, j, "u", "b"); whole(v, true) }
  fn q_pairs_text() { let mut v = empty(); let t = vis::<1>("t"); let i = choice("i", K); fill(&mut v, i, &t, "a"); fill(&mut v, if i == 0 { 1 } else { 0 }, "u", "b"); whole(v, true) }
  fn q_triples() { let mut v = empty(); let i = choice("i", K); assume(i >= 5); let j = choice("j", K); assume(i < j); let k = pick("k", &[0u8, 3, 4, 2]); fill(&mut v, i, "t", "a"); fill(&mut v, j, "u", "b"); fill(&mut v, k, "w", "c"); whole(v, false) }
  fn q_all() { let mut v = empty(); for i in 0..K { if i != 12 { fill(&mut v, i, "t", if i == 8 || i == 11 { "a" } else { "b" }) } } whole(v, false) }
  fn q_presence() { let mut v = empty(); for i in [0u8, 1, 2, 3, 9, 14, 7, 4, 15] { if flag("p") { fill(&mut v, i, "t", "a") } } whole(v, true) }
  fn q_mandatory() { let e = choice("e", 8); let g = choice("g", 8); let t = "t".to_string(); let m = Mand { i: 1, s: t.clone(), l: leaf(choice("l", 3), "l"), e: ev(e, "e"), b: true, g: ev(g, "g"), x: Text { k: None, t }, w: Wr(2), t: Tg::B, d: Void {}, f: Fl { fa: Some("f".into()), fb: None, fk: None }, z: 1.5 };
    let named = |n: &str, o: String, s: &str| { let _ = n; o.strip_prefix(&cat!("<", s)[..]).map(|r| cat!("<", n, r)).unwrap().strip_suffix(&cat!("</", s, ">")[..]).map(|r| cat!(r, "</", n, ">")).unwrap() }; let mut want = String::from("<i>1</i><s>t</s>"); want.push_str(&inner(&Ol { l: Some(m.l.clone()) })); want.push_str(&inner(&Oe { e: Some(m.e.clone()) })); want.push_str("<b>true</b>"); want.push_str(&named("g", inner(&Oe { e: Some(m.g.clone()) }), "e")); want.push_str("<x>t</x><w>2</w><t kind=\"B\" /><d /><fa>f</fa><z>1.5</z>");
    let full = ser(&m); check!(between(full.strip_prefix(DECL).unwrap(), "Mand") == want, "a part is written differently next to others"); check!(inner(&m) == want, "the content alone differs from the inside"); rt(m) }
  fn q_attrs() { let a = Attrs { a: opt("a", || any::<1>("t")), b: opt("b", || 2), f: opt("f", || Fl { fa: opt("fa", || "x".to_string()), fb: None, fk: opt("fk", || 3) }), c: opt("c", || true), d: -4, n: opt("n", || 9) }; let mut s = cat!("<Attrs"); if let Some(v) = &a.a { s.push_str(&cat!(" a=\"", esca(v), "\"")) } if a.b.is_some() { s.push_str(" b=\"2\"") } if a.c.is_some() { s.push_str(" cc=\"true\"") } s.push_str(" d=\"-4\""); if let Some(Fl { fk: Some(_), .. }) = &a.f { s.push_str(" fk=\"3\"") } let mut c = String::new(); if let Some(Fl { fa: Some(_), .. }) = &a.f { c.push_str("<fa>x</fa>") } if a.n.is_some() { c.push_str("<n>9</n>") } let d = if c.is_empty() { cat!(s, " />") } else { cat!(s, ">", c, "</Attrs>") }; writes(&a, &doc(&d)); check!(inner(&a) == c, "the content alone differs from the inside") }
  fn q_ns() { let a = choice("a", 6); let b = choice("b", 6); let o = NsOne { x: ns(a), y: ns(b), z: vec![NsIn { s: Some("z".into()) }, NsIn { s: None }] }; let full = ser(&o); let body = between(full.strip_prefix(DECL).unwrap(), "NsOne"); let alone = |n: &str, v: &Ns| { let f = ser(v); let b = f.strip_prefix(DECL).unwrap().strip_prefix("<n:Ns").unwrap(); if let Some(b) = b.strip_suffix("</n:Ns>") { cat!("<", n, b, "</", n, ">") } else { cat!("<", n, b) } }; let want = cat!(alone("x", &o.x), alone("y", &o.y), "<z xmlns:n=\"ab\"><n:s>z</n:s></z><z xmlns:n=\"ab\" />"); check!(body == want, "a part is written differently next to others"); cover(0) }
  fn q_repeat() { // any history of earlier calls leaves the next rendering as it is
    let t = vis::<1>("t"); let mut v = empty(); let i = choice("i", K); fill(&mut v, i, &t, "a"); let first = ser(&v); match choice("k", 5) { 0 => { let _ = ser(&v); } 1 => { let _ = inner(&v); } 2 => { let mut o = empty(); fill(&mut o, choice("j", K), "u", "b"); let _ = ser(&o); } 3 => { let _ = de::<Fwd>("<Fwd><i>"); } _ => { let _ = serialize_with_writer(&v, &mut [0u8; 3][..], &Config::default()); } } check!(to_string(&v) == Ok(first.clone()), "a second rendering differs"); check!(serialize_with_writer(&v, Vec::new(), &Config::default()) == Ok(first.into_bytes()), "a second rendering differs"); check!(serialize_with_writer_content(&v, Vec::new()) == Ok(inner(&v).into_bytes()), "the content alone differs from the inside"); cover(0) }
  fn q_enums() { let t = vis::<1>("t"); let v = ev(choice("e", 8), &t); let full = ser(&v); check!(between(full.strip_prefix(DECL).unwrap(), "Ev") == inner(&v), "the content alone differs from the inside"); let o = Oe { e: Some(v) }; check!(inner(&o) == cat!("<e>", between(full.strip_prefix(DECL).unwrap(), "Ev"), "</e>"), "a part is written differently next to others"); cover(0) }
  fn q_list() { // items of a list are rendered as each alone
    let k: Vec<u8> = (0..3).map(|_| choice("k", 8)).collect(); let v: Vec<Ev> = k.iter().map(|k| ev(*k, "t")).collect(); let want: String = v.iter().map(|e| inner(&Og { g: vec![e.clone()] })).collect(); check!(inner(&Og { g: v }) == want, "a part is written differently next to others"); cover(0) }
  fn q_list_leaf() { let n = choice("n", 4); let v: Vec<Leaf> = (0..n).map(|_| leaf(choice("k", 3), "t")).collect(); let want: String = v.iter().map(|e| inner(&Om { m: vec![e.clone()] })).collect(); check!(inner(&Om { m: v }) == want, "a part is written differently next to others"); cover(0) }
  fn q_variant_alone() { let t = vis::<1>("t"); let v = fv(choice("v", 5), &t); let x = x_fv(&v); check!(ser(&v) == cat!(DECL, "<Fv>", x, "</Fv>"), "a part is written differently next to others"); check!(inner(&v) == x, "the content alone differs from the inside"); rt(v) }
  fn q_variant_among() { let e = fv(choice("e", 5), "t"); let v = fv(choice("v", 5), "t"); let q = choice("q", 3); let h = Fh { a: opt("a", || leaf(1, "a")), e: e.clone(), f: opt("f", || Fl { fa: Some("fa".into()), fb: Some(leaf(1, "fb")), fk: None }), v: match choice("vn", 3) { 0 => vec![], 1 => vec![v.clone()], _ => vec![v.clone(), e.clone()] }, n: None, o: opt("o", || v.clone()), q: match q { 0 => Fq::N, 1 => Fq::C1(C1 { val: "q".into() }), _ => Fq::A(leaf(1, "q")) }, z: Some(1) };
    let w = cat!(if h.a.is_some() { "<a><s>a</s></a>" } else { "" }, "<e>", x_fv(&e), "</e>", if h.f.is_some() { "<fa>fa</fa><fb><s>fb</s></fb>" } else { "" }, h.v.iter().map(|v| cat!("<v>", x_fv(v), "</v>")).collect::<String>(), if h.o.is_some() { cat!("<o>", x_fv(&v), "</o>") } else { "".into() }, ["N", "<C1 val=\"q\" />", "<A><s>q</s></A>"][q as usize], "<z>1</z>");
    check!(ser(&h) == cat!(DECL, "<Fh>", w, "</Fh>"), "a part is written differently next to others"); check!(inner(&h) == w, "the content alone differs from the inside"); cover(0) }
}
