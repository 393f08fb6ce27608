use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Top { a: Option<u8>, b: Option<String>, c: Option<Mid>, v: Vec<u8>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Mid { a: Option<u8>, c: Option<Low>, v: Vec<u8>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Low { a: Option<u8>, #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Rec { a: Option<u8>, r: Vec<Rec>, #[yaserde(attribute = true)] a2: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Two { x: Option<Mid>, y: Option<Mid>, z: Option<Low> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Flat { a: Option<u8>, #[yaserde(flatten = true)] f: Part, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { b: Option<u8>, c: Option<Mid> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Own { #[yaserde(rename = "own")] a: Option<u8>, top: Option<Inner>, own2: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Inner { own: Option<u8>, top: Option<u8>, inner: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct He { e: Option<En>, a: Option<u8>, l: Vec<En> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum En { #[default] None, #[yaserde(rename = "a")] A(u8), #[yaserde(rename = "c")] C(Mid), #[yaserde(rename = "v")] V(Vec<u8>), #[yaserde(rename = "e")] E(Low), #[yaserde(rename = "u")] U }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ef { a: Option<u8>, #[yaserde(flatten = true)] x: Fe, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] None, #[yaserde(rename = "b")] B(u8), #[yaserde(rename = "c")] C(Mid) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Req { a: u8, c: Low }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug)]
struct Wr(u8);
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hw { w: Option<Wr>, a: Option<u8>, l: Vec<Wr> }
fn at(n: &Node, k: &str) -> Result<Option<u8>, ()> { match n.get(k) { None => Ok(None), Some(v) => num(v).map(Some).ok_or(()) } }
type Q<T> = Result<T, ()>;
/// The last child of this name, read as a struct; any that is refused refuses the whole.
fn sub<T>(n: &Node, name: &str, f: impl Fn(&Node) -> Q<T>) -> Q<Option<T>> { let mut r = None; for c in n.all(name) { r = Some(f(c)?) } Ok(r) }
fn subs<T>(n: &Node, name: &str, f: impl Fn(&Node) -> Q<T>) -> Q<Vec<T>> { n.all(name).map(f).collect() }
fn top(n: &Node) -> Q<Top> { Ok(Top { a: n.last("a", num), b: n.last("b", string), c: sub(n, "c", mid)?, v: n.each("v", num), k: at(n, "k")? }) }
fn mid(n: &Node) -> Q<Mid> { Ok(Mid { a: n.last("a", num), c: sub(n, "c", low)?, v: n.each("v", num), k: at(n, "k")? }) }
fn low(n: &Node) -> Q<Low> { Ok(Low { a: n.last("a", num), k: at(n, "k")?, t: n.own_text() }) }
fn rec(n: &Node) -> Q<Rec> { Ok(Rec { a: n.last("a", num), r: subs(n, "r", rec)?, a2: at(n, "a2")? }) }
fn two(n: &Node) -> Q<Two> { Ok(Two { x: sub(n, "x", mid)?, y: sub(n, "y", mid)?, z: sub(n, "z", low)? }) }
fn flat(n: &Node) -> Q<Flat> { Ok(Flat { a: n.last("a", num), f: Part { b: n.last("b", num), c: sub(n, "c", mid)? }, z: n.last("z", num) }) }
fn req(n: &Node) -> Q<Req> { Ok(Req { a: n.last("a", num).ok_or(())?, c: sub(n, "c", low)?.ok_or(())? }) }
/// An enum element with at most one child element.
fn en(n: &Node) -> Q<En> { let mut r = En::None; if n.own_text() == "u" { return Ok(En::U) } for k in &n.kids { if let Kid::N(c) = k { match &c.name[..] { "a" => r = En::A(c.plain().and_then(|p| num(&p)).ok_or(())?), "c" => r = En::C(mid(c)?), "v" => r = En::V(vec![c.plain().and_then(|p| num(&p)).ok_or(())?]), "e" => r = En::E(low(c)?), "u" => r = En::U, _ => {} } } } Ok(r) }
fn he(n: &Node) -> Q<He> { Ok(He { e: sub(n, "e", en)?, a: n.last("a", num), l: subs(n, "l", en)? }) }
fn ef(n: &Node) -> Q<Ef> { let mut x = Fe::None; for k in &n.kids { if let Kid::N(c) = k { match &c.name[..] { "b" => x = Fe::B(c.plain().and_then(|p| num(&p)).ok_or(())?), "c" => x = Fe::C(mid(c)?), _ => {} } } } Ok(Ef { a: n.last("a", num), x, z: n.last("z", num) }) }
fn wr(n: &Node) -> Q<Wr> { num(&n.own_text()).map(Wr).ok_or(()) }
fn hw(n: &Node) -> Q<Hw> { Ok(Hw { w: sub(n, "w", wr)?, a: n.last("a", num), l: subs(n, "l", wr)? }) }
fn go<T: YaDeserialize + PartialEq>(s: &str, f: fn(&Node) -> Q<T>) { let n = shape(s); agrees(&n, f(&n).ok()) }
harnesses! {
  fn q_words() { let n = wname("n"); assume(n.len() > 1); let (d, v) = digit("d"); let d = d.to_string(); let deep = match choice("k", 4) { 0 => cat!("<", n, "><a>9</a><b>9</b><v>9</v></", n, ">"), 1 => cat!("<", n, " a=\"9\" k=\"9\" b=\"9\"/>"), 2 => cat!("<", n, "><", n, "><a>9</a></", n, "><c k='9'><a>9</a></c></", n, ">"), _ => cat!("<c><", n, "><a>9</a><v>9</v></", n, "></c>") }; let c = if deep.starts_with("<c>") { Some(Mid { a: None, c: None, v: vec![], k: None }) } else { None }; let x = if flag("after") { cat!("<Top><a>", d, "</a>", deep, "</Top>") } else { cat!("<Top>", deep, "<a>", d, "</a></Top>") }; reads(&x, &Top { a: Some(v), b: None, c, v: vec![], k: None }) }
  // chains: every name symbolic at every level
  fn q_top_chain() { go(pick("s", &["((((d))))", "(((d)(d))(d))", "((d)((d))(d))", "((((d)d)d)d)", "(((d))((d)))", "(@((d))(d))", "((@(d))(d))"]), top) }
  fn q_top_chain4() { go(pick("s", &["((((d)(d))))", "((((d))(d))(d))", "(((@d))@(d))"]), top) }
  fn q_top_flat() { go(pick("s", &["((d)(d)(d))", "((d)()(t))", "(()((d))())", "(@@(d))"]), top) }
  fn q_top_c() { go(pick("s", &["(C(C((d)(d))(d))(d))", "(C(C(C((d))(d))(d))(d))", "(C(@(d))(d)C((d)))", "(@C(@C(@(d))))", "((C(C(d)))C((d)))"]), top) }
  fn q_root_name() { // the root may be called like anything below it
    go(pick("s", &["A(A(d))", "C(C(C(A(d)))A(d))", "A((A(d))A(d))", "C((d)C((d)))", "V(V(d)V(d)(V(d)))", "K(=kA(d)(=kA(d)))", "T(O()(d)A(d))"]), top) }
  fn q_mid() { go(pick("s", &["(C((d))A(d))", "(@C(@@d(d)))", "((C(@))C(d))"]), mid) }
  fn q_low() { go(pick("s", &["((t)d(d)d)", "(t(t(t))t)", "(@(d)t(@d))", "(((d)t)A(d)t)"]), low) }
  fn q_rec() { go(pick("s", &["(R(R(R(A(d))(d))(d))(d))", "((((d)(d)))(d))", "(R((d)(d))R((d)(d)))", "R(R(R(R(R(d)A(d))A(d))A(d))A(d))"]), rec) }
  fn q_rec_any() { go(pick("s", &["((((d)(d))(d)))", "(((d))((d)))", "(((()(d))))"]), rec) }
  fn q_two() { go(pick("s", &["(X((d))Y((d)))", "(X(C((d)))(@))", "((A(d))(A(d)))", "(X(@Y(A(d)))Y(@))", "(Z(X((d)))X(d))", "((C(@t))(C(t)))"]), two) }
  fn q_flat() { go(pick("s", &["((d)(d)(d))", "(((d))(d))", "(C((d)(d))(d))", "((C((d)))C((d)))", "(Z((d))A(d)(d))", "(B(d)(B(d)(d)))"]), flat) }
  fn q_flat_root() { go(pick("s", &["C(C((d))(d))", "B(B(d)(d))", "P(C(A(d))(d))", "A((d)B(d))"]), flat) }
  fn q_he() { go(pick("s", &["(E((d))(d))", "(E(((d)))(d))", "(E(C((d)))A(d))", "(E(E((d)))A(d))", "(E((A(d)))(d))", "((A(d))A(d))", "(L((d))L((d)))", "((E(A(d)))E((d)))"]), he) }
  fn q_he_root() { go(pick("s", &["A(E((d))A(d))", "E(E(E(t))(d))", "U(E(A(d)))", "C(E(C(A(d)))A(d))", "L(L((d))L(L()))"]), he) }
  fn q_he_unit() { let n = Node::new("x").kid(Node::new("e").kid(Node::new("a").text("3"))); let u = name::<1>("u"); let k = choice("k", 4); let n = match k { 0 => Node::new("x").kid(Node::new("e").text(&u)), 1 => Node::new("x").text(&u).kid(Node::new("e")), 2 => n.text(&u), _ => Node::new("x").kid(Node::new("e").kid(Node::new("q").text(&u))) }; agrees(&n, he(&n).ok()) }
  fn q_ef() { go(pick("s", &["((d)(d))", "(C((d)(d))(d))", "((C((d)))(d))", "((B(d))A(d))", "(A(d)(B(d))Z(d))"]), ef) }
  fn q_req() { go(pick("s", &["((d)(t))", "(((d)t)(d))", "(C(A(d))(d))", "((A(d))C())", "((A(d)C())A(d))", "(A(d)((t)))"]), req) }
  fn q_wrapper() { go(pick("s", &["(W(d(d))A(d))", "(W((d)d)(d))", "((W(d))(d))", "(L(d)L((d)d)A(d))", "(W(W(d)d)W(d))"]), hw) }
  fn q_own() { let n = shape(pick("s", &["((d)((d)(d))(d))", "(((d)))"])); // longer names, mapped from the letters
    fn m(n: &Node) -> Node { let nm = match &n.name[..] { "o" => "own", "t" => "top", "i" => "inner", "w" => "own2", x => x }; let mut r = Node::new(nm); for k in &n.kids { match k { Kid::N(c) => r = r.kid(m(c)), Kid::T(t) | Kid::X(_, t) => r = r.text(t) } } r }
    let d = m(&n); let inner = |n: &Node| -> Q<Inner> { Ok(Inner { own: n.last("own", num), top: n.last("top", num), inner: n.last("inner", num) }) }; let w = Own { a: d.last("own", num), top: sub(&d, "top", inner).unwrap(), own2: d.last("own2", num) }; agrees(&d, Some(w)) }
  fn q_unknown_big() { // a deep foreign part with every declared name in it
    let at = choice("at", 3); let f = Node::new("q").attr("k", "7").kid(Node::new("a").text("1")).kid(Node::new("c").attr("k", "6").kid(Node::new("v").text("2")).kid(Node::new("c").text("3"))).kid(Node::new("b").text("x")).text("y").kid(Node::new("q").kid(Node::new("v").text("4"))); let nm = name::<1>("n"); let mut f = f; f.name = nm; assume(f.name != "a" && f.name != "b" && f.name != "c" && f.name != "v"); let a = Node::new("a").text("9"); let c = Node::new("c").kid(Node::new("v").text("8")); let r = Node::new("Top"); let n = match at { 0 => r.kid(f).kid(a).kid(c), 1 => r.kid(a).kid(f).kid(c), _ => r.kid(a).kid(c.kid(f)) }; agrees(&n, top(&n).ok()) }
  fn q_deep_rec() { let n = pick("n", &[7u8, 8, 15, 16, 17, 31, 32, 33, 64, 65, 130]); let up = choice("up", 8); let b = digit("d").0.to_string(); let mut t = Node::new("r").kid(Node::new("a").text(&b)); for i in 0..n { t = Node::new("r").kid(t); if i % 7 == up { t = t.kid(Node::new("a").text("3")) } if i % 5 == up { t = t.attr("a2", "4").kid(Node::new("q").kid(Node::new("a").text("5"))) } } agrees(&t, rec(&t).ok()) }
  fn q_big_foreign() { let n = pick("n", &[7usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130, 256, 300]); let nm = name::<1>("n"); let mut f = Node::new("q"); for i in 0..n { f = f.kid(if i % 3 == 0 { Node::new("a").text("1") } else if i % 3 == 1 { Node::new(&nm).kid(Node::new("v").text("2")) } else { Node::new("c").attr("k", "3") }) } let a = Node::new("a").text("9"); let c = Node::new("c").kid(Node::new("v").text("8")); let r = Node::new("Top"); let n = match choice("at", 4) { 0 => r.kid(f).kid(a).kid(c), 1 => r.kid(a).kid(f).kid(c), 2 => r.kid(a).kid(c.kid(f)), _ => r.kid(a).kid(Node::new("c").kid(Node::new("c").kid(f))) }; agrees(&n, top(&n).ok()) }
  fn q_xtop5() { go(pick("s", &["(((((d)))))", "(((d)(d))((d)))", "((((d))(d))((d)))"]), top) }
  fn q_xtwo() { go(pick("s", &["(((d)(d))((d)))", "((((d)))((d)))"]), two) }
  fn q_xflat() { go(pick("s", &["(((d)(d))(d))", "((((d)))(d))"]), flat) }
  fn q_tree_top() { let n = tree(pick("n", &[3u8, 4, 5])); agrees(&n, top(&n).ok()) }
  fn q_tree_two() { let n = tree(5); agrees(&n, two(&n).ok()) }
  fn q_tree_flat() { let n = tree(5); agrees(&n, flat(&n).ok()) }
  fn q_tree_rec() { let n = tree(5); agrees(&n, rec(&n).ok()) }
  fn q_tree_req() { let n = tree(5); agrees(&n, req(&n).ok()) }
  fn q_tree_wr() { let n = tree(5); agrees(&n, hw(&n).ok()) }
  fn q_tree_ef() { let n = tree(5); let k = n.kids.iter().filter(|k| matches!(k, Kid::N(c) if c.name == "b" || c.name == "c")).count(); assume(k <= 1); agrees(&n, ef(&n).ok()) }
  fn q_tree_he() { let n = tree(5); for k in &n.kids { if let Kid::N(c) = k { assume(c.kids.len() <= 1) } } agrees(&n, he(&n).ok()) }
  fn t_tree_top() { let n = tree(6); agrees(&n, top(&n).ok()) }
  fn t_tree_two() { let n = tree(6); agrees(&n, two(&n).ok()) }
  fn t_tree_flat() { let n = tree(6); agrees(&n, flat(&n).ok()) }
}
