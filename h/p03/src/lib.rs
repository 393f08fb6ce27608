use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nest { x: Leaf, o: Option<Leaf>, v: Vec<Leaf>, t: String }
// the same element name at several levels
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "a")]
struct Sa { a: Sb, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "a")]
struct Sb { a: Sc, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "a")]
struct Sc { a: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Opt { a: Option<Leaf>, b: Option<Two>, c: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Two { s: String, n: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Lists { a: Vec<Two>, m: u8, b: Vec<Leaf>, c: Vec<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tree { n: u8, kids: Vec<Tree> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Para { #[yaserde(attribute = true)] id: u8, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OPara { #[yaserde(text = true)] t: Option<String>, #[yaserde(attribute = true)] a: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Page { h: Para, p: Vec<Para>, o: Option<OPara>, e: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String, s: String, #[yaserde(cdata = true)] d: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct CdIn { v: Vec<Cd>, o: Option<Cd> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "root-el")]
struct Ren { #[yaserde(rename = "x-y")] a: String, #[yaserde(rename = "x.z")] b: Vec<u8>, #[yaserde(rename = "Leaf")] c: Leaf, #[yaserde(rename = "other")] d: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Gen<T: YaSerialize + YaDeserialize, U: YaSerialize + YaDeserialize> { a: T, b: Option<U>, c: Vec<T> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hold { g: Gen<Leaf, Two>, h: Gen<Two, Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Empty {}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Unit { e: Empty, o: Option<Empty>, v: Vec<Empty>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct D5 { d: D4, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct D4 { d: Vec<D3>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct D3 { d: Option<D2>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct D2 { d: D1, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct D1 { d: String, s: String }
// items that leave the writer in each of its states, and every place that can hold them
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Fla { fa: u8, #[yaserde(attribute = true)] fk: Option<u8> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Le), D(Vec<Le>), E(Option<Le>) }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Le { s: String }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, P(String), Q(Le) }
#[derive(yaserde::PrimitiveYaSerde, Clone, PartialEq, Debug)]
struct Wr(u8);
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct If { x: u8, #[yaserde(flatten = true)] f: Fla }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Io { x: u8, #[yaserde(flatten = true)] f: Option<Fla> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Ig { x: u8, #[yaserde(flatten = true)] g: Fe }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Ie { x: u8, ev: Ev }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Iv { x: u8, ev: Vec<Ev> }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Il { x: u8, l: Le }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct Iw { x: u8, w: Wr }
#[derive(YaSerialize, YaDeserialize, Clone, PartialEq, Debug)]
struct It { #[yaserde(attribute = true)] k: u8, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Places<I: YaSerialize + YaDeserialize> { a: I, o: Option<I>, v: Vec<I>, z: Le, y: Option<Le>, c: I, w: Wr, d: Vec<I>, u: Vec<Le>, q: Vec<I>, n: u8, p: Option<I>, m: Option<Wr>, r: I, j: Ev }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Near { #[yaserde(rename = "val")] a: Leaf, #[yaserde(rename = "VAL")] b: Two, #[yaserde(rename = "Val")] c: Option<Leaf>, #[yaserde(rename = "va")] d: Vec<Leaf>, #[yaserde(rename = "vals")] e: Vec<Two>, #[yaserde(rename = "val.")] f: Option<Two>, #[yaserde(rename = "s")] g: Leaf, #[yaserde(rename = "v")] h: Vec<Para>, #[yaserde(rename = "S")] i: u8, #[yaserde(rename = "n")] j: Option<Leaf>, #[yaserde(rename = "Near")] k: Option<Leaf> }
fn fla() -> Fla { Fla { fa: 1, fk: opt("fk", || 2) } }
fn le() -> Le { Le { s: "l".into() } }
fn ev() -> Ev { match choice("ev", 5) { 0 => Ev::A, 1 => Ev::B("b".into()), 2 => Ev::C(le()), 3 => Ev::D(vec![le(), le()]), _ => Ev::E(Some(le())) } }
fn places<I: YaSerialize + YaDeserialize + Clone + PartialEq>(i: I, k: I) { rt(Places { a: i.clone(), o: opt("o", || k.clone()), v: vec![i.clone(), k.clone()], z: le(), y: opt("y", le), c: k.clone(), w: Wr(3), d: vec![k.clone()], u: vec![le()], q: list("q", 3, || i.clone()), n: 4, p: opt("p", || i.clone()), m: opt("m", || Wr(5)), r: k, j: Ev::C(le()) }) }
fn leaf() -> Leaf { Leaf { s: upto::<1>("s") } }
/// `f(i)` is symbolic in the focused position and fixed elsewhere.
fn at(k: u8, i: u8, d: &str) -> String { if k == i { upto::<2>("c") } else { d.to_string() } }
fn lf(s: String) -> Leaf { Leaf { s } }
fn tree(d: u8, left: &mut u8) -> Tree {
  let n = below("n", 200);
  let k = if d == 0 || *left == 0 { 0 } else { choice("kids", 1 + (*left).min(2)) };
  *left -= k;
  Tree { n, kids: (0..k).map(|_| tree(d - 1, left)).collect() }
}
harnesses! {
  fn q_words() { let w = word("w"); let c = vis::<1>("c"); let l = || Leaf { s: w.clone() }; match choice("at", 5) { 0 => rt(Nest { x: l(), o: Some(l()), v: vec![l(), Leaf { s: c }], t: w.clone() }), 1 => rt(Para { id: 1, t: w }), 2 => rt(OPara { t: Some(w.clone()), a: Some(w) }), 3 => rt(Cd { c: w.clone(), s: c, d: w }), _ => rt(Sa { a: Sb { a: Sc { a: w.clone() }, s: Some(w) }, s: c }) } }
  fn q_source_sizes() { let n = size("n"); let c = vis::<1>("c"); match choice("at", 2) { 0 => rt(Lists { a: (0..n).map(|_| Two { s: c.clone(), n: None }).collect(), m: 1, b: (0..n).map(|_| Leaf { s: "b".into() }).collect(), c: vec![c] }), _ => rt(Tree { n: 1, kids: { let mut k: Vec<Tree> = (0..n).map(|_| Tree { n: 2, kids: vec![] }).collect(); k.push(Tree { n: digit("d").1, kids: vec![] }); k } }) } }
  fn q_nest() { let k = choice("focus", 4); rt(Nest { x: lf(at(k, 0, "x")), o: opt("o", || lf(at(k, 1, ""))), v: { let mut i = 0; list("v", 3, || { i += 1; lf(if i == 2 { at(k, 2, "v") } else { "w".into() }) }) }, t: at(k, 3, "t") }) }
  fn q_order() { rt(Nest { x: lf("x".into()), o: None, v: vec![lf(vis::<1>("a")), lf(vis::<1>("b")), lf(vis::<1>("c"))], t: "t".into() }) }
  fn q_samename() { let k = choice("focus", 3); rt(Sa { a: Sb { a: Sc { a: at(k, 0, "i") }, s: opt("o", || at(k, 1, "m")) }, s: at(k, 2, "") }) }
  fn q_opt() { rt(Opt { a: opt("a", leaf), b: opt("b", || Two { s: "s".into(), n: opt("n", || 3) }), c: opt("c", leaf) }) }
  fn q_lists() { let k = choice("focus", 3);
    rt(Lists { a: { let mut i = 0; list("a", 3, || { i += 1; Two { s: if i == 2 { at(k, 0, "s") } else { "s".into() }, n: if i == 1 { opt("n", || 5) } else { None } } }) }, m: 1, b: list("b", 2, || lf(if k == 1 { upto::<1>("l") } else { "l".into() })), c: list("c", 2, || if k == 2 { upto::<1>("m") } else { "".into() }) }) }
  fn q_tree() { let mut left = 3; rt(tree(3, &mut left)) }
  fn q_page() { let k = choice("focus", 4); let at = |k: u8, i: u8, d: &str| if k == i { upto::<1>("c") } else { d.to_string() }; rt(Page { h: Para { id: below("id", 10), t: at(k, 0, "h") }, p: list("p", 2, || Para { id: 7, t: at(k, 1, "") }),
      o: opt("o", || OPara { t: match choice("t", 2) { 0 => None, _ => Some(["!".to_string(), at(k, 2, "x")].concat()) }, a: opt("a", || "q".to_string()) }), e: at(k, 3, "e") }) }
  fn q_text() { rt(Para { id: 1, t: txt::<4>("t") }) }
  fn q_cdata() { rt(Cd { c: txt::<4>("c"), s: "s".into(), d: String::new() }) }
  fn q_cdata_marks() { let m = pick("m", &["]]>", "]]", "<![CDATA[", "]]]]><![CDATA[>", "]]>]]>", "--", "?>"]); let a = upto::<1>("a"); let b = upto::<1>("b"); rt(Cd { c: [&a, m, &b].concat(), s: [m, &a].concat(), d: m.to_string() }) }
  fn q_cdata_in() { let k = choice("focus", 2); rt(CdIn { v: list("v", 2, || Cd { c: at(k, 0, "c<"), s: String::new(), d: "d".into() }), o: opt("o", || Cd { c: String::new(), s: at(k, 1, ""), d: "]]".into() }) }) }
  fn q_ren() { let k = choice("focus", 3); rt(Ren { a: at(k, 0, "a"), b: list("b", 2, || 200), c: lf(at(k, 1, "c")), d: opt("d", || lf(at(k, 2, "d"))) }) }
  fn q_gen() { let k = choice("focus", 3); rt(Hold { g: Gen { a: lf(at(k, 0, "a")), b: opt("b", || Two { s: at(k, 1, "b"), n: None }), c: list("c", 2, || lf("c".into())) }, h: Gen { a: Two { s: at(k, 2, ""), n: Some(1) }, b: opt("hb", || lf("".into())), c: list("hc", 2, || Two { s: "z".into(), n: None }) } }) }
  fn q_empty() { rt(Unit { e: Empty {}, o: opt("o", || Empty {}), v: list("v", 3, || Empty {}), s: upto::<1>("s") }) }
  fn q_deep() { let k = choice("focus", 5); let at = |k: u8, i: u8, d: &str| if k == i { upto::<1>("c") } else { d.to_string() }; let d3 = || D3 { d: opt("d2", || D2 { d: D1 { d: at(k, 0, "1"), s: at(k, 1, "2") }, s: at(k, 2, "3") }), s: at(k, 3, "4") }; rt(D5 { d: D4 { d: list("l", 2, d3), s: at(k, 4, "") }, s: "z".into() }) }
  fn q_places_flat() { places(If { x: 1, f: fla() }, If { x: 2, f: Fla { fa: 7, fk: None } }) }
  fn q_places_optflat() { places(Io { x: 1, f: Some(fla()) }, Io { x: 2, f: opt("f", fla) }) }
  fn q_places_flatenum() { let g = match choice("g", 2) { 0 => Fe::P("p".into()), _ => Fe::Q(le()) }; places(Ig { x: 1, g }, Ig { x: 2, g: Fe::P("q".into()) }) }
  fn q_places_enum() { let e = ev(); places(Ie { x: 1, ev: e }, Ie { x: 2, ev: Ev::D(vec![le()]) }) }
  fn q_places_enums() { let e = ev(); places(Iv { x: 1, ev: vec![e, Ev::C(le())] }, Iv { x: 2, ev: vec![] }) }
  fn q_places_struct() { places(Il { x: 1, l: le() }, Il { x: 2, l: le() }) }
  fn q_places_wrap() { places(Iw { x: 1, w: Wr(2) }, Iw { x: 2, w: Wr(4) }) }
  fn q_places_text() { places(It { k: 1, t: "t".into() }, It { k: 2, t: "".into() }) }
  fn q_places_alone() { if flag("wrap") { places(Wr(1), Wr(2)) } else { places(ev(), Ev::C(le())) } }
  fn q_near() { let k = choice("focus", 4); let g = choice("which", 4); let k = |i, d: &str| at(k, i, d); let o = |i: u8, n: &str| if g == i { flag(n) } else { i % 2 == 0 }; rt(Near { a: lf(k(0, "1")), b: Two { s: k(1, "2"), n: if o(0, "bn") { Some(2) } else { None } }, c: if o(0, "c") { Some(lf("3".into())) } else { None }, d: list("d", 2, || lf("4".into())), e: if o(1, "e") { vec![] } else { vec![Two { s: k(2, "5"), n: None }, Two { s: "5".into(), n: Some(1) }] }, f: if o(1, "f") { Some(Two { s: "6".into(), n: Some(6) }) } else { None }, g: lf(k(3, "7")), h: if o(2, "h") { vec![Para { id: 8, t: "8".into() }] } else { vec![] }, i: 9, j: if o(2, "j") { Some(lf("10".into())) } else { None }, k: if o(3, "k") { Some(lf("11".into())) } else { None } }) }
  fn q_sizes() { let n = choice("n", 68) as usize; let c = vis::<1>("c"); match choice("w", 3) { 0 => rt(Nest { x: lf("x".into()), o: None, v: (0..n).map(|i| lf(if i + 1 == n { c.clone() } else { "v".into() })).collect(), t: "t".into() }), 1 => rt(Page { h: Para { id: 1, t: "x".repeat(n) }, p: (0..n).map(|i| Para { id: i as u8, t: if i % 2 == 0 { "".into() } else { "\u{e9}".into() } }).collect(), o: Some(OPara { t: Some([c.as_str(), &"y".repeat(n)].concat()), a: Some("z".repeat(n)) }), e: "e".into() }), _ => rt(Cd { c: ["]".repeat(n).as_str(), &c, ">"].concat(), s: "s".into(), d: ["x".repeat(n).as_str(), "]]>", &c].concat() }) } }
  fn q_deep_tree() { let n = pick("n", &[7u16, 16, 40, 130, 260]); let mut t = Tree { n: byte("leaf"), kids: vec![] }; for i in 0..n { t = Tree { n: i as u8, kids: vec![t] }; } rt(t) }
  fn q_wide() { let n = pick("n", &[3usize, 8, 9, 33, 70]); let c = vis::<1>("c"); rt(Lists { a: (0..n).map(|i| Two { s: if i + 1 == n { c.clone() } else { "s".into() }, n: if i % 2 == 0 { Some(i as u8) } else { None } }).collect(), m: 9, b: (0..n).map(|_| lf(c.clone())).collect(), c: vec![] }) }
  fn t_tree() { let mut left = 5; rt(tree(4, &mut left)) }
  fn t_text6() { rt(OPara { t: Some(txt::<5>("t")), a: None }) }
  fn t_cdata6() { rt(Cd { c: txt::<5>("c"), s: "s".into(), d: "d".into() }) }
}
