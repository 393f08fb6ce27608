use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct D { y: u8, m: String, #[yaserde(flatten = true)] x: X, #[yaserde(flatten = true)] oe: Option<Oe> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct X { w: u8, c: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Oe { l: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct One { #[yaserde(flatten = true)] d: D, t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Two { #[yaserde(flatten = true)] a: X, s: String, #[yaserde(flatten = true)] b: Oe, v: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Lv { #[yaserde(flatten = true)] a: L, s: String, after: Vec<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct L { v: Vec<String>, p: Vec<P>, o: Option<P> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct P { s: String, n: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum K { #[default] W, I(u8), S(String), P(P), V(Vec<String>), #[yaserde(rename = "z")] Z }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ke { a: String, #[yaserde(flatten = true)] k: K, t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct K1 { #[yaserde(flatten = true)] k: K }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Kd { #[yaserde(flatten = true)] x: X, a: String, #[yaserde(flatten = true)] k: K }
// attributes at several levels
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct At { #[yaserde(flatten = true)] t: Ta, #[yaserde(attribute = true)] d: String, e: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ta { #[yaserde(attribute = true)] b: bool, #[yaserde(flatten = true)] f: Fa, g: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(namespaces = { "ns" = "http://ns" })]
struct Fa { #[yaserde(attribute = true, prefix = "ns")] s: String, #[yaserde(attribute = true)] o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Oa { #[yaserde(flatten = true)] o: Option<Ob>, #[yaserde(attribute = true)] d: Option<String>, e: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ob { #[yaserde(attribute = true)] i: String, j: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(flatten = true)]
struct Root { a: String, b: Option<String>, c: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Wrap { r: Sub, v: Vec<Sub>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sub { #[yaserde(flatten = true)] p: P, q: String, #[yaserde(flatten = true)] o: Option<Oe> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tn { #[yaserde(flatten = true)] b: Tb, v: Tv }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tb { #[yaserde(attribute = true)] id: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tv { #[yaserde(text = true)] s: String }
// the same name inside a claimed element and in the flattened part
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Dup { c: Inner, #[yaserde(flatten = true)] f: Fl }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Inner { a: String, b: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { a: String, b: Option<String>, d: Option<Inner> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nr { #[yaserde(rename = "val")] a: String, #[yaserde(flatten = true)] f: Nf, #[yaserde(flatten = true)] o: Option<No>, #[yaserde(attribute = true, rename = "Val")] k: Option<u8>, #[yaserde(flatten = true)] e: Ne, #[yaserde(rename = "vals")] z: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nf { #[yaserde(rename = "VAL")] b: String, #[yaserde(rename = "va")] c: Vec<u8>, #[yaserde(attribute = true, rename = "val")] k: Option<u8>, #[yaserde(flatten = true)] g: Ng }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ng { #[yaserde(rename = "val.")] b: Option<String>, #[yaserde(attribute = true, rename = "VAL")] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct No { #[yaserde(rename = "Val")] b: Option<P>, #[yaserde(rename = "v")] c: u8, #[yaserde(attribute = true, rename = "vals")] k: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ne { #[default] N, #[yaserde(rename = "vaL")] A(u8), #[yaserde(rename = "vAL")] B(P), #[yaserde(rename = "vAl")] C(Vec<String>) }
fn at(k: u8, i: u8, d: &str) -> String { if k == i { upto::<2>("c") } else { d.to_string() } }
fn at1(k: u8, i: u8, d: &str) -> String { if k == i { upto::<1>("c") } else { d.to_string() } }
fn aa(k: u8, i: u8, d: &str) -> String { if k == i { any::<2>("c") } else { d.to_string() } }
fn kk() -> K { match choice("var", 6) { 0 => K::W, 1 => K::I(byte("i")), 2 => K::S(upto::<2>("s")), 3 => K::P(P { s: upto::<1>("p"), n: opt("n", || 3) }), 4 => { let n = choice("n", 3) + 1; K::V((0..n).map(|i| if i == 1 { upto::<1>("v") } else { "a<".into() }).collect()) } _ => K::Z } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, #[yaserde(rename = "b-b")] B, C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tf { a: String, #[yaserde(flatten = true)] t: Tg, b: Option<String>, #[yaserde(attribute = true)] k: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct To { #[yaserde(flatten = true)] t: Option<Tg>, a: String, #[yaserde(flatten = true)] o: Option<Oe>, v: Vec<Tf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct C1 { #[yaserde(attribute = true)] val: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct C2 { #[yaserde(attribute = true)] num: u8, t: String, v: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Fv { #[default] U, #[yaserde(flatten = true, rename = "C1")] X(C1), #[yaserde(flatten = true, rename = "C2")] Y(C2), S(String) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<String>, #[yaserde(flatten = true)] e: Fv, #[yaserde(flatten = true)] x: X, b: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fh { f: Ff, v: Vec<Ff>, #[yaserde(flatten = true)] e: Option<Fx> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Fx { #[default] N, A(u8), #[yaserde(flatten = true, rename = "C1")] B(C1) }
// text of a flattened part
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ft { #[yaserde(flatten = true)] t: Txt, #[yaserde(attribute = true)] k: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Txt { #[yaserde(text = true)] s: String, #[yaserde(attribute = true)] j: Option<u8> }
fn tg(n: &str) -> Tg { match choice(n, 3) { 0 => Tg::A, 1 => Tg::B, _ => Tg::C } }
fn fv(k: u8) -> Fv { match k { 0 => Fv::U, 1 => Fv::X(C1 { val: any::<1>("cv") }), 2 => Fv::Y(C2 { num: 3, t: upto::<1>("ct"), v: list("cl", 2, || 5) }), _ => Fv::S(upto::<1>("cs")) } }
fn ffv(k: u8) -> Fv { match k { 0 => Fv::U, 1 => Fv::X(C1 { val: "a".into() }), 2 => Fv::Y(C2 { num: 3, t: "num".into(), v: vec![] }), _ => Fv::S("U".into()) } }
harnesses! {
  fn q_big() { let n = pick("n", &[129usize, 257, 1025, 4097, 8193]); let t = cat!("x".repeat(n), vis::<1>("c")); match choice("at", 5) { 0 => rt(One { d: D { y: 1, m: t.clone(), x: X { w: 1, c: Some(t.clone()) }, oe: Some(Oe { l: t }) }, t: "t".into() }), 1 => rt(Oa { o: Some(Ob { i: t.clone(), j: "j".into() }), d: None, e: t }), 2 => rt(Ke { a: "a".into(), k: K::S(t.clone()), t: Some(t) }), 3 => rt(Tn { b: Tb { id: t.clone() }, v: Tv { s: t } }), _ => rt(To { t: Some(Tg::B), a: "a".into(), o: Some(Oe { l: t }), v: vec![] }) } }
  fn q_words() { let w = word("w"); let c = vis::<1>("c"); match choice("at", 5) { 0 => rt(One { d: D { y: 1, m: w.clone(), x: X { w: 1, c: Some(w.clone()) }, oe: Some(Oe { l: w }) }, t: c }), 1 => rt(Ke { a: c, k: K::S(w.clone()), t: Some(w) }), 2 => rt(Ft { t: Txt { s: w, j: None }, k: 1 }), 3 => rt(Tn { b: Tb { id: w.clone() }, v: Tv { s: w } }), _ => rt(Oa { o: Some(Ob { i: w.clone(), j: w.clone() }), d: Some(c), e: w }) } }
  fn q_sizes() { let n = size("n"); let c = vis::<1>("c"); rt(Lv { a: L { v: vec![c.clone(); n], p: (0..n).map(|_| P { s: "p".into(), n: None }).collect(), o: None }, s: "s".into(), after: vec![c] }) }
  fn q_one() { let k = choice("focus", 4); rt(One { d: D { y: below("y", 200), m: at(k, 0, "m"), x: X { w: 9, c: opt("c", || at(k, 1, "")) }, oe: opt("oe", || Oe { l: at(k, 2, "l") }) }, t: at(k, 3, "t") }) }
  fn q_two() { let k = choice("focus", 3); rt(Two { a: X { w: 1, c: opt("c", || at(k, 0, "")) }, s: at(k, 1, "s"), b: Oe { l: at(k, 2, "") }, v: list("v", 3, || 7) }) }
  fn q_list() { let k = choice("focus", 4); rt(Lv { a: L { v: list("v", 2, || at1(k, 0, "v")), p: list("p", 2, || P { s: at1(k, 1, "p"), n: None }), o: opt("o", || P { s: at(k, 2, ""), n: Some(1) }) }, s: at(k, 3, "s"), after: list("af", 2, || "z".to_string()) }) }
  fn q_enum() { rt(K1 { k: kk() }) }
  fn q_enum2() { if flag("f") { rt(Ke { a: "A".into(), k: kk(), t: opt("t", || "W".into()) }) } else { rt(Ke { a: upto::<1>("a"), k: K::S("I".into()), t: opt("t", || upto::<1>("tv")) }) } }
  fn q_enum3() { rt(Kd { x: X { w: 4, c: opt("c", || "x".into()) }, a: upto::<1>("a"), k: kk() }) }
  fn q_attr() { let k = choice("focus", 4); rt(At { t: Ta { b: bool_("b"), f: Fa { s: aa(k, 0, "s"), o: opt("o", || 5) }, g: at(k, 1, "g") }, d: aa(k, 2, ""), e: at(k, 3, "e") }) }
  fn q_oattr() { let k = choice("focus", 4); rt(Oa { o: opt("o", || Ob { i: aa(k, 0, "i"), j: at(k, 1, "j") }), d: opt("d", || aa(k, 2, "d")), e: at(k, 3, "") }) }
  fn q_root() { let k = choice("focus", 2); rt(Root { a: at(k, 0, "a"), b: opt("b", || at(k, 1, "b")), c: vec![] }) }
  fn q_wrap() { let k = choice("focus", 4); rt(Wrap { r: Sub { p: P { s: at(k, 0, "p"), n: opt("n", || 2) }, q: at(k, 1, "q"), o: opt("o", || Oe { l: at(k, 2, "l") }) }, v: list("v", 2, || Sub { p: P { s: "x".into(), n: None }, q: "".into(), o: Some(Oe { l: "&".into() }) }), s: at(k, 3, "s") }) }
  fn q_text() { rt(Tn { b: Tb { id: any::<1>("id") }, v: Tv { s: upto::<2>("s") } }) }
  fn q_dup() { let k = choice("focus", 5); rt(Dup { c: Inner { a: at(k, 0, "a"), b: opt("b", || at(k, 1, "b")) }, f: Fl { a: at(k, 2, "fa"), b: opt("fb", || at(k, 3, "")), d: opt("d", || Inner { a: at(k, 4, "da"), b: Some("db".into()) }) } }) }
  fn q_text_in() { let s = txt::<3>("s"); rt(Two { a: X { w: 0, c: Some(s.clone()) }, s: "s".into(), b: Oe { l: s }, v: vec![1] }) }
  fn q_uni() { let n = choice("len", 3) + 2; let s = uni("u", n); rt(Oa { o: Some(Ob { i: s.clone(), j: s.clone() }), d: Some(s.clone()), e: s }) }
  fn q_near() { let k = choice("focus", 3); let k = |i, d: &str| at1(k, i, d); rt(Nr { a: k(0, "1"), f: Nf { b: k(1, "2"), c: list("c", 2, || 3), k: opt("fk", || 4), g: Ng { b: opt("gb", || k(2, "5")), k: opt("gk", || 6) } }, o: opt("o", || No { b: opt("ob", || P { s: "7".into(), n: None }), c: 8, k: 9 }), k: opt("k", || 10), e: match choice("e", 4) { 0 => Ne::N, 1 => Ne::A(11), 2 => Ne::B(P { s: "12".into(), n: Some(12) }), _ => Ne::C(vec!["13".into(), "14".into()]) }, z: list("z", 2, || 15) }) }
  fn q_many() { let n = pick("n", &[9usize, 17, 40]); let c = vis::<1>("c"); rt(Lv { a: L { v: (0..n).map(|i| if i + 1 == n { c.clone() } else { "x".into() }).collect(), p: (0..n).map(|i| P { s: "y".into(), n: if i % 2 == 0 { None } else { Some(1) } }).collect(), o: None }, s: "s".into(), after: (0..n).map(|_| "q".into()).collect() }) }
  fn q_tagmarks() { let s = pick("s", &["]]>", "<![CDATA[x]]>", "&amp;", "&#65;", "<a>", "</One>", "<?x?>", "<!-- c -->"]); let c = upto::<1>("c"); rt(Dup { c: Inner { a: [s, &c].concat(), b: None }, f: Fl { a: [&c, s].concat(), b: Some(s.to_string()), d: None } }) }
  fn t_text() { let s = txt::<5>("s"); rt(Two { a: X { w: 0, c: Some(s.clone()) }, s: "s".into(), b: Oe { l: s }, v: vec![1] }) }
  fn q_tag() { rt(Tf { a: upto::<1>("a"), t: tg("t"), b: opt("b", || "b".into()), k: opt("k", || any::<1>("kv")) }) }
  fn q_tag_opt() { let f = |t| Tf { a: "A".into(), t, b: None, k: None }; rt(To { t: opt("t", || tg("tv")), a: upto::<1>("a"), o: opt("o", || Oe { l: "l".into() }), v: match choice("v", 3) { 0 => vec![], 1 => vec![f(tg("u"))], _ => vec![f(Tg::C), f(tg("u"))] } }) }
  fn q_variant() { let k = choice("fv", 4); rt(Ff { a: opt("a", || "a".into()), e: fv(k), x: X { w: 1, c: opt("c", || "c".into()) }, b: upto::<1>("b") }) }
  fn q_variant_held() { let f = |k| Ff { a: None, e: ffv(k), x: X { w: 1, c: None }, b: "b".into() }; rt(Fh { f: f(choice("f", 4)), v: list("v", 2, || f(choice("vf", 4))), e: Some(match choice("e", 3) { 0 => Fx::N, 1 => Fx::A(4), _ => Fx::B(C1 { val: upto::<1>("bv") }) }) }) }
  fn q_text_part() { rt(Ft { t: Txt { s: upto::<2>("s"), j: opt("j", || 4) }, k: 5 }) }
}
