use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Unit { #[default] A, B, #[yaserde(rename = "c-d")] C, Bb }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Prim { #[default] U, I(i32), #[yaserde(rename = "u")] By(u8), Bo(bool), S(String), F(f64), L(i64), W(u16), Z(i8), X(u64), Y(i16), K(u32), G(f32) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct P { a: u8, s: String, o: Option<String>, v: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Q { #[yaserde(attribute = true)] id: String, #[yaserde(attribute = true)] n: Option<u8>, t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tx { #[yaserde(attribute = true)] id: u8, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Strs { #[default] None_, P(P), Q(Q), T(Tx), E(Unit), N(Box2) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Box2 { u: Unit, p: Option<P> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Opts { #[default] D, O(Option<String>), I(Option<i32>), P(Option<P>), Q(Option<Q>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Vecs { #[default] D, S(Vec<String>), I(Vec<i32>), P(Vec<P>), Q(Vec<Q>), B(Vec<bool>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "type", rename = "tg")]
enum Tag { #[default] A, #[yaserde(rename = "b")] B, Cc }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hold { e: Unit, o: Option<Unit>, v: Vec<Unit>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldP { e: Prim, o: Option<Prim>, v: Vec<Prim>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldS { e: Strs, v: Vec<Strs>, o: Option<Strs>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldV { e: Vecs, f: Opts, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldT { t: Tag, o: Option<Tag>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldA { #[yaserde(attribute = true)] a: Unit, #[yaserde(attribute = true)] b: Option<Unit>, s: String }
// variant names equal to field names
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Clash { #[yaserde(rename = "A")] x: Unit, #[yaserde(rename = "I")] y: Prim, #[yaserde(rename = "S")] z: Option<Prim>, s: String }
// names that differ by case, or continue one another
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Near { #[default] N, #[yaserde(rename = "val")] A(u8), #[yaserde(rename = "VAL")] B(u8), #[yaserde(rename = "Val")] C(String), #[yaserde(rename = "vals")] D(u8), #[yaserde(rename = "va")] E(Vec<u8>), #[yaserde(rename = "val.x")] F(P), #[yaserde(rename = "val-")] G(Option<u8>), #[yaserde(rename = "v")] H(Vec<P>), #[yaserde(rename = "n")] I(bool), #[yaserde(rename = "Near")] J(u8), #[yaserde(rename = "\u{e9}")] K(i8), #[yaserde(rename = "a")] L(Q) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum NearU { #[default] #[yaserde(rename = "val")] A, #[yaserde(rename = "VAL")] B, #[yaserde(rename = "Val")] C, #[yaserde(rename = "vals")] D, #[yaserde(rename = "va")] E, #[yaserde(rename = "val.x")] F, #[yaserde(rename = "val-")] G, #[yaserde(rename = "v")] H, #[yaserde(rename = "NearU")] I, #[yaserde(rename = "\u{e9}")] J }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "t")]
enum NearT { #[default] #[yaserde(rename = "val")] A, #[yaserde(rename = "VAL")] B, #[yaserde(rename = "Val")] C, #[yaserde(rename = "vals")] D, #[yaserde(rename = "va")] E, #[yaserde(rename = "t")] F, #[yaserde(rename = "NearT")] G }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldN { #[yaserde(rename = "val")] a: Near, #[yaserde(rename = "VAL")] b: Option<NearU>, #[yaserde(rename = "vals")] c: Vec<Near>, #[yaserde(rename = "v")] d: Vec<NearU>, #[yaserde(attribute = true, rename = "Val")] e: Option<NearU>, #[yaserde(rename = "n")] f: Option<NearT>, s: String }
fn near() -> Near { match choice("near", 13) { 0 => Near::N, 1 => Near::A(byte("x")), 2 => Near::B(byte("x")), 3 => Near::C(upto::<1>("x")), 4 => Near::D(byte("x")), 5 => Near::E(vec![1, 2]), 6 => Near::F(fp()), 7 => Near::G(Some(3)), 8 => Near::H(vec![fp(), fp()]), 9 => Near::I(bool_("x")), 10 => Near::J(4), 11 => Near::K(-4), _ => Near::L(fq()) } }
fn nearu(n: &str) -> NearU { match choice(n, 10) { 0 => NearU::A, 1 => NearU::B, 2 => NearU::C, 3 => NearU::D, 4 => NearU::E, 5 => NearU::F, 6 => NearU::G, 7 => NearU::H, 8 => NearU::I, _ => NearU::J } }
fn neart(n: &str) -> NearT { match choice(n, 7) { 0 => NearT::A, 1 => NearT::B, 2 => NearT::C, 3 => NearT::D, 4 => NearT::E, 5 => NearT::F, _ => NearT::G } }
fn unit(n: &str) -> Unit { match choice(n, 4) { 0 => Unit::A, 1 => Unit::B, 2 => Unit::C, _ => Unit::Bb } }
fn tag(n: &str) -> Tag { match choice(n, 3) { 0 => Tag::A, 1 => Tag::B, _ => Tag::Cc } }
fn prim() -> Prim { match choice("var", 13) { 0 => Prim::U, 1 => Prim::I(i32_("i")), 2 => Prim::By(byte("u")), 3 => Prim::Bo(bool_("b")), 4 => Prim::S(upto::<2>("s")), 5 => Prim::F(f64_("f")),
  6 => Prim::L(i64_("l")), 7 => Prim::W(u16_("w")), 8 => Prim::Z(i8_("z")), 9 => Prim::X(u64_("x")), 10 => Prim::Y(i16_("y")), 11 => Prim::K(u32_("k")), _ => Prim::G(f32_("g")) } }
fn sprim() -> Prim { match choice("var", 5) { 0 => Prim::U, 1 => Prim::I(-(byte("i") as i32)), 2 => Prim::By(byte("u") & 15), 3 => Prim::Bo(bool_("b")), _ => Prim::S(upto::<1>("s")) } }
fn p() -> P { P { a: 3, s: upto::<1>("ps"), o: opt("po", || "o".into()), v: list("pv", 2, || 9) } }
fn fp() -> P { P { a: 3, s: "s".into(), o: None, v: vec![] } }
fn q() -> Q { Q { id: upto::<1>("qi"), n: opt("qn", || 4), t: opt("qt", || "t".into()) } }
fn fq() -> Q { Q { id: "<".into(), n: None, t: Some("t".into()) } }
fn strs() -> Strs { match choice("var", 6) { 0 => Strs::None_, 1 => Strs::P(p()), 2 => Strs::Q(q()), 3 => Strs::T(Tx { id: 1, t: upto::<1>("t") }), 4 => Strs::E(unit("u")), _ => Strs::N(Box2 { u: unit("u"), p: opt("bp", fp) }) } }
fn fstrs() -> Strs { match choice("var", 6) { 0 => Strs::None_, 1 => Strs::P(fp()), 2 => Strs::Q(fq()), 3 => Strs::T(Tx { id: 1, t: "A".into() }), 4 => Strs::E(Unit::B), _ => Strs::N(Box2 { u: Unit::C, p: Some(fp()) }) } }
fn vecs() -> Vecs { let n = choice("n", 3) + 1; let k = choice("sym", n); match choice("var", 6) { 0 => Vecs::D, 1 => Vecs::S((0..n).map(|i| if i == k { upto::<1>("s") } else { "".into() }).collect()), 2 => Vecs::I((0..n).map(|i| if i == k { -(byte("i") as i32) } else { i as i32 }).collect()),
  3 => Vecs::P((0..n).map(|i| if i == k { p() } else { fp() }).collect()), 4 => Vecs::Q((0..n).map(|i| if i == k { q() } else { fq() }).collect()), _ => Vecs::B((0..n).map(|i| (i == k) ^ bool_("b")).collect()) } }
fn opts() -> Opts { match choice("var", 5) { 0 => Opts::D, 1 => Opts::O(Some(upto::<2>("s"))), 2 => Opts::I(Some(i32_("i"))), 3 => Opts::P(Some(p())), _ => Opts::Q(Some(q())) } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Pay { #[default] N, T(Tag), V(Vec<Tag>), O(Option<Tag>), E(Vec<Unit>), F(Option<Unit>), H(Prim), I(Vec<Prim>), J(Vec<Strs>), K(Option<Prim>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldPay { e: Pay, o: Option<Pay>, v: Vec<Pay>, s: String }
// variants written under the name of their payload
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct C1 { #[yaserde(attribute = true)] val: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct C2 { #[yaserde(attribute = true)] num: u8, t: String, v: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct C3 { #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(rename = "base")]
enum Fv { #[default] U, #[yaserde(flatten = true, rename = "C1")] X(C1), #[yaserde(flatten = true, rename = "C2")] Y(C2), S(String), #[yaserde(flatten = true)] C3(C3), P(P) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fr { #[default] D, #[yaserde(flatten = true, rename = "C1")] X(C1), #[yaserde(flatten = true, rename = "C2")] Y(C2), S(String), C3(C3) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HoldFv { a: Option<P>, e: Fv, v: Vec<Fv>, o: Option<Fv>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hold2 { a: HoldFv, b: Option<HoldFv> }
fn fv() -> Fv { match choice("fv", 6) { 0 => Fv::U, 1 => Fv::X(C1 { val: any::<1>("cv") }), 2 => Fv::Y(C2 { num: byte("cn") & 15, t: upto::<1>("ct"), v: list("cl", 2, || 5) }), 3 => Fv::S(upto::<1>("cs")), 4 => Fv::C3(C3 { t: upto::<1>("ct") }), _ => Fv::P(fp()) } }
fn ffv(k: u8) -> Fv { match k { 0 => Fv::U, 1 => Fv::X(C1 { val: "x".into() }), 2 => Fv::Y(C2 { num: 2, t: "".into(), v: vec![1, 2] }), 3 => Fv::S("s".into()), 4 => Fv::C3(C3 { t: "U".into() }), _ => Fv::P(fp()) } }
fn pay() -> Pay { match choice("pay", 10) { 0 => Pay::N, 1 => Pay::T(tag("t")), 2 => { let n = choice("n", 3) + 1; Pay::V((0..n).map(|_| tag("t")).collect()) } 3 => Pay::O(Some(tag("t"))), 4 => { let n = choice("n", 3) + 1; Pay::E((0..n).map(|_| unit("u")).collect()) } 5 => Pay::F(Some(unit("u"))), 6 => Pay::H(sprim()), 7 => Pay::I(vec![sprim(), Prim::U]), 8 => Pay::J(vec![fstrs(), Strs::None_]), _ => Pay::K(Some(sprim())) } }
/// payloads of every primitive type, in every kind of variant and place
macro_rules! payloads { ($($m:ident $t:ident [$($v:expr => $x:expr),*];)*) => { $(mod $m {
  use util::*;
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default, Clone)]
  #[yaserde(namespaces = { "n" = "urn:n" })]
  pub enum E { #[default] U, A($t), B(Option<$t>), C(Vec<$t>), #[yaserde(rename = "d-d")] D($t), #[yaserde(rename = "f", prefix = "n")] F(Vec<$t>), #[yaserde(prefix = "n")] G(Option<$t>) }
  #[derive(YaSerialize, PartialEq, Debug, Clone)]
  pub enum N { X { a: $t, #[yaserde(rename = "b-b")] b: Option<$t>, c: Vec<$t> }, Y { a: $t } }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
  pub struct H { e: E, o: Option<E>, v: Vec<E>, z: $t }
  fn v() -> Vec<($t, &'static str)> { vec![$(($v, $x)),*] }
  fn x(n: &str) -> ($t, &'static str) { let w = v(); w[choice(n, w.len() as u8) as usize].clone() }
  fn one() -> (E, String) { let (a, b) = (x("a"), x("b")); match choice("kind", 7) { 0 => (E::U, "U".into()), 1 => (E::A(a.0), el("A", a.1)), 2 => (E::B(Some(a.0)), el("B", a.1)), 3 => (E::C(vec![a.0, b.0]), cat!(el("C", a.1), el("C", b.1))), 4 => (E::D(a.0), el("d-d", a.1)), 5 => (E::F(vec![b.0]), el("n:f", b.1)), _ => (E::G(Some(b.0)), el("n:G", b.1)) } }
  pub fn go() {
    let (e, ex) = one(); let w = v(); let z = w[0].clone(); let ns = " xmlns:n=\"urn:n\"";
    let r = doc(&cat!("<E", ns, ">", ex, "</E>")); writes(&e, &r); reads(&r, &e);
    let h = match choice("at", 3) { 0 => H { e: e.clone(), o: None, v: vec![], z: z.0 }, 1 => H { e: E::A(w[1].0.clone()), o: Some(e.clone()), v: vec![E::U], z: z.0 }, _ => H { e: E::U, o: None, v: vec![E::C(vec![w[1].0.clone()]), e.clone(), E::U], z: z.0 } };
    let put = |n: &str, c: &str| cat!("<", n, ns, ">", c, "</", n, ">"); let (b, c) = (el("A", w[1].1), el("C", w[1].1));
    let body = if h.o.is_some() { cat!(put("e", &b), put("o", &ex), put("v", "U")) } else if h.v.is_empty() { put("e", &ex) } else { cat!(put("e", "U"), put("v", &c), put("v", &ex), put("v", "U")) };
    let d = doc(&cat!("<H>", body, el("z", z.1), "</H>")); writes(&h, &d); reads(&d, &h)
  }
  pub fn named() {
    let (a, b, c) = (x("a"), x("b"), x("c")); let (ob, n) = (flag("ob"), choice("n", 3) as usize);
    if flag("y") { writes(&N::Y { a: a.0 }, &doc(&cat!("<N>", el("a", a.1), "</N>"))) } else { writes(&N::X { a: a.0, b: if ob { Some(b.0) } else { None }, c: vec![c.0; n] }, &doc(&cat!("<N>", el("a", a.1), if ob { el("b-b", b.1) } else { String::new() }, el("c", c.1).repeat(n), "</N>"))) }
  }
  pub fn bad() { // a payload that isn't a literal of the type is never a value
    let t = pick("t", &["x", "", "1 2", "0x1", "--1", "1.1.1", "99999999999999999999", "tru", "TRUE"]); if t.parse::<$t>().is_ok() { assume(false) }
    let k = pick("k", &["A", "B", "C", "d-d", "f", "G"]); let p = cat!("<", k, ">", t, "</", k, ">"); let ok = el("C", v()[0].1);
    refused::<E>(&cat!("<E>", p, "</E>")); refused::<E>(&cat!("<E>", if k == "C" { ok } else { String::new() }, p, "</E>")); refused::<H>(&cat!("<H><e>U</e><v>", p, "</v><z>", v()[0].1, "</z></H>"))
  }
})* } }
payloads! { m_bool bool [true => "true", false => "false"]; m_u8 u8 [200 => "200", 0 => "0", 255 => "255"]; m_i8 i8 [-128 => "-128", 0 => "0", 127 => "127"]; m_u16 u16 [65535 => "65535", 1 => "1", 256 => "256"]; m_i16 i16 [-32768 => "-32768", 7 => "7", 32767 => "32767"]; m_u32 u32 [4294967295 => "4294967295", 0 => "0", 65536 => "65536"]; m_i32 i32 [-2147483648 => "-2147483648", -1 => "-1", 2147483647 => "2147483647"]; m_u64 u64 [18446744073709551615 => "18446744073709551615", 0 => "0", 4294967296 => "4294967296"]; m_i64 i64 [-9223372036854775808 => "-9223372036854775808", 0 => "0", 9223372036854775807 => "9223372036854775807"]; m_f32 f32 [1.5 => "1.5", -0.1 => "-0.1", 3.0e10 => "30000000000"]; m_f64 f64 [0.1 => "0.1", -2.5e-3 => "-0.0025", 1e17 => "100000000000000000"]; m_string String ["x".into() => "x", "".into() => "", "q-r".into() => "q-r"]; }
harnesses! {
  fn q_words() { let w = word("w"); let c = vis::<1>("c"); match choice("at", 7) { 0 => rt(Prim::S(w)), 1 => rt(Strs::T(Tx { id: 1, t: w })), 2 => rt(Strs::Q(Q { id: w.clone(), n: None, t: Some(w) })), 3 => rt(Opts::O(Some(w))), 4 => rt(Vecs::S(vec![w.clone(), c, w])), 5 => rt(HoldP { e: Prim::U, o: Some(Prim::S(w.clone())), v: vec![Prim::S(w.clone()), Prim::S(c)], s: w }), _ => rt(HoldA { a: Unit::B, b: None, s: w }) } }
  fn q_numbers() { let n = number("n"); match choice("at", 8) { 0 => rt(Prim::X(n)), 1 => rt(Prim::L((n as i64).wrapping_neg())), 2 => rt(Prim::I(n as i32)), 3 => rt(Prim::By(n as u8)), 4 => rt(Prim::F(n as f64)), 5 => rt(Vecs::I(vec![n as i32, 1, (n as i32).wrapping_neg()])), 6 => rt(Opts::I(Some(n as i32))), _ => rt(Prim::W(n as u16)) } }
  fn q_sizes() { let n = size("n"); let (_, d) = digit("d"); match choice("at", 2) { 0 => { let mut v = vec![7; n]; v.push(d as i32); rt(Vecs::I(v)) } _ => { let mut v: Vec<Unit> = (0..n).map(|_| Unit::C).collect(); v.push(Unit::B); rt(Hold { e: Unit::Bb, o: None, v, s: d.to_string() }) } } }
  fn q_unit() { rt(unit("u")) }
  fn q_prim() { rt(prim()) }
  fn q_text() { rt(Prim::S(txt::<3>("s"))) }
  // text equal to, or close to, names of variants
  fn q_names() { let s = pick("s", &["U", "I", "u", "By", "Bo", "S", "F", "A", "e", "o", "v", "s", "HoldP", "Prim", "true", "1", "", "L", "W"]);
    match choice("where", 4) { 0 => rt(Prim::S(s.into())), 1 => rt(HoldP { e: Prim::S(s.into()), o: Some(Prim::U), v: vec![Prim::U, Prim::S(s.into())], s: s.into() }),
      2 => rt(HoldV { e: Vecs::S(vec![s.into(), "D".into()]), f: Opts::O(Some(s.into())), s: s.into() }), _ => rt(HoldS { e: Strs::P(P { a: 1, s: s.into(), o: Some(s.into()), v: vec![] }), v: vec![Strs::T(Tx { id: 2, t: s.into() })], o: Some(Strs::None_), s: s.into() }) } }
  fn q_strs() { rt(strs()) }
  fn q_vecs() { rt(vecs()) }
  fn q_opts() { rt(opts()) }
  fn q_hold() { rt(Hold { e: unit("e"), o: opt("o", || unit("ou")), v: list("v", 2, || unit("vu")), s: "A".into() }) }
  fn q_hold_s() { rt(Hold { e: unit("e"), o: None, v: vec![Unit::A, Unit::C], s: upto::<2>("s") }) }
  fn q_holdp() { let k = choice("focus", 3); rt(HoldP { e: if k == 0 { prim() } else { Prim::U }, o: if k == 1 { opt("o", prim) } else { Some(Prim::Bo(true)) }, v: if k == 2 { let mut v = vec![Prim::U]; v.push(prim()); v.push(Prim::S("z".into())); v } else { list("v", 2, || Prim::U) }, s: "I".into() }) }
  fn q_holdp2() { rt(HoldP { e: sprim(), o: None, v: vec![sprim(), sprim()], s: "s".into() }) }
  fn q_holds() { let k = choice("focus", 3); rt(HoldS { e: if k == 0 { strs() } else { fstrs() }, v: if k == 1 { vec![fstrs(), strs()] } else { vec![fstrs()] }, o: if k == 2 { opt("o", strs) } else { None }, s: "P".into() }) }
  fn q_holdv() { if flag("w") { rt(HoldV { e: vecs(), f: Opts::D, s: "S".into() }) } else { rt(HoldV { e: Vecs::I(vec![1, 2]), f: opts(), s: "O".into() }) } }
  fn q_tag() { rt(tag("t")) }
  fn q_holdt() { rt(HoldT { t: tag("t"), o: opt("o", || tag("ot")), s: upto::<2>("s") }) }
  fn q_attr() { rt(HoldA { a: unit("a"), b: opt("b", || unit("bu")), s: upto::<1>("s") }) }
  fn q_near() { match choice("w", 3) { 0 => rt(near()), 1 => rt(nearu("u")), _ => rt(neart("t")) } }
  fn q_near_held() { match choice("w", 4) { 0 => rt(HoldN { a: near(), b: opt("b", || NearU::B), c: vec![near()], d: vec![NearU::H], e: None, f: None, s: "s".into() }), 1 => rt(HoldN { a: Near::A(1), b: opt("b", || nearu("u")), c: vec![], d: vec![NearU::A, nearu("v")], e: Some(NearU::C), f: None, s: "s".into() }), 2 => rt(HoldN { a: Near::B(1), b: Some(NearU::A), c: vec![Near::A(2), near(), Near::B(3)], d: vec![], e: opt("e", || nearu("w")), f: None, s: "s".into() }), _ => rt(HoldN { a: Near::N, b: None, c: vec![], d: vec![], e: None, f: opt("f", || neart("t")), s: "s".into() }) } }
  fn q_clash() { rt(Clash { x: unit("x"), y: sprim(), z: opt("z", sprim), s: "A".into() }) }
  fn q_uni() { let n = choice("len", 3) + 2; rt(HoldP { e: Prim::S(uni("c", n)), o: None, v: vec![], s: "s".into() }) }
  fn q_many() { let n = pick("n", &[9usize, 17, 33, 65]); let b = byte("b"); match choice("w", 3) { 0 => rt(Vecs::I((0..n).map(|i| if i + 1 == n { b as i32 } else { i as i32 }).collect())), 1 => rt(HoldP { e: Prim::U, o: None, v: (0..n).map(|i| if i % 3 == 0 { Prim::U } else { Prim::By(b) }).collect(), s: "s".into() }), _ => rt(Hold { e: Unit::B, o: None, v: (0..n).map(|i| if i % 3 == 0 { Unit::A } else { Unit::C }).collect(), s: "s".into() }) } }
  fn k_opt_none() { rt(Opts::O(None)) }
  fn k_vec_empty() { rt(HoldV { e: Vecs::S(vec![]), f: Opts::D, s: "s".into() }) }
  fn t_text5() { rt(HoldP { e: Prim::S(txt::<4>("s")), o: None, v: vec![], s: "s".into() }) }
  fn t_two() { rt(HoldP { e: prim(), o: None, v: vec![prim()], s: "s".into() }) }
  fn q_pay() { rt(pay()) }
  fn q_pay_held() { match choice("w", 3) { 0 => rt(HoldPay { e: pay(), o: None, v: vec![], s: "N".into() }), 1 => rt(HoldPay { e: Pay::N, o: Some(pay()), v: vec![Pay::N], s: "s".into() }), _ => rt(HoldPay { e: Pay::T(Tag::B), o: None, v: vec![Pay::V(vec![Tag::A, Tag::Cc]), pay(), Pay::N], s: "s".into() }) } }
  fn q_flat_variant() { if flag("r") { rt(fv()) } else { rt(match choice("fr", 5) { 0 => Fr::X(C1 { val: any::<1>("cv") }), 1 => Fr::Y(C2 { num: byte("cn"), t: upto::<1>("ct"), v: list("cl", 2, || 5) }), 2 => Fr::S(upto::<2>("cs")), 3 => Fr::C3(C3 { t: upto::<1>("ct") }), _ => Fr::X(C1 { val: "".into() }) }) } }
  fn q_flat_variant_held() { let k = choice("w", 3); rt(HoldFv { a: opt("a", fp), e: if k == 0 { fv() } else { ffv(choice("e", 6)) }, v: if k == 1 { vec![ffv(choice("v0", 6)), fv()] } else { vec![] }, o: if k == 2 { opt("o", fv) } else { None }, s: "C1".into() }) }
  fn q_flat_variant_deep() { let h = |e, o, v| HoldFv { a: None, e, v, o, s: "s".into() }; let f = |n: &str| ffv(choice(n, 6)); rt(Hold2 { a: h(f("a"), None, vec![]), b: opt("b", || h(Fv::U, Some(f("c")), vec![f("d"), f("e")])) }) }
  fn q_type_bool() { m_bool::go() }
  fn q_named_bool() { m_bool::named() }
  fn q_bad_bool() { m_bool::bad() }
  fn q_type_u8() { m_u8::go() }
  fn q_named_u8() { m_u8::named() }
  fn q_bad_u8() { m_u8::bad() }
  fn q_type_i8() { m_i8::go() }
  fn q_named_i8() { m_i8::named() }
  fn q_bad_i8() { m_i8::bad() }
  fn q_type_u16() { m_u16::go() }
  fn q_named_u16() { m_u16::named() }
  fn q_bad_u16() { m_u16::bad() }
  fn q_type_i16() { m_i16::go() }
  fn q_named_i16() { m_i16::named() }
  fn q_bad_i16() { m_i16::bad() }
  fn q_type_u32() { m_u32::go() }
  fn q_named_u32() { m_u32::named() }
  fn q_bad_u32() { m_u32::bad() }
  fn q_type_i32() { m_i32::go() }
  fn q_named_i32() { m_i32::named() }
  fn q_bad_i32() { m_i32::bad() }
  fn q_type_u64() { m_u64::go() }
  fn q_named_u64() { m_u64::named() }
  fn q_bad_u64() { m_u64::bad() }
  fn q_type_i64() { m_i64::go() }
  fn q_named_i64() { m_i64::named() }
  fn q_bad_i64() { m_i64::bad() }
  fn q_type_f32() { m_f32::go() }
  fn q_named_f32() { m_f32::named() }
  fn q_bad_f32() { m_f32::bad() }
  fn q_type_f64() { m_f64::go() }
  fn q_named_f64() { m_f64::named() }
  fn q_bad_f64() { m_f64::bad() }
  fn q_type_string() { m_string::go() }
  fn q_named_string() { m_string::named() }
}
