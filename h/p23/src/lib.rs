use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Doc { #[yaserde(attribute = true)] i: Option<u8>, a: u8, b: Option<bool>, c: Vec<Item>, d: Option<Item>, #[yaserde(default = "seven")] e: u8, f: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Item { #[yaserde(attribute = true)] i: u8, #[yaserde(attribute = true)] s: Option<String>, #[yaserde(text = true)] t: String, g: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Str { s: String, o: Option<String>, v: Vec<String>, #[yaserde(attribute = true)] a: Option<String>, x: Option<Text>, e: Option<Ev> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Text { #[yaserde(text = true)] t: String, k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] N, #[yaserde(rename = "s")] S(String), #[yaserde(rename = "x")] X(Text), #[yaserde(rename = "v")] V(Vec<String>), U }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nums { a: i8, b: u16, c: i32, d: u64, e: bool, f: Option<f64>, g: Option<i64>, h: Vec<u32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct List { #[yaserde(rename = "a")] l: Vec<u8>, #[yaserde(rename = "b")] m: Vec<bool>, #[yaserde(rename = "c")] n: Vec<Pair>, #[yaserde(rename = "d")] o: Vec<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Pair { a: Option<u8>, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { #[yaserde(attribute = true)] i: Option<u8>, a: Option<u8>, #[yaserde(flatten = true)] f: Fp, #[yaserde(flatten = true)] g: Option<Fq>, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fp { #[yaserde(attribute = true)] j: Option<u8>, b: Option<u8>, c: Vec<Pair>, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fq { q: u8, p: Option<Pair> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tags { a: Vec<Tg>, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "k")]
enum Tg { #[default] None, #[yaserde(rename = "p")] P, #[yaserde(rename = "q")] Q }
#[derive(YaDeserialize, PartialEq, Debug)]
struct Gen<T: YaDeserialize> { a: Option<T>, b: Vec<T>, #[yaserde(attribute = true)] i: Option<u8> }
fn seven() -> u8 { 7 }
type Q<T> = Result<T, ()>;
fn bool1(s: &str) -> Option<bool> { match s { "0" | "false" => Some(false), "1" | "true" => Some(true), _ => None } }
fn at<T>(n: &Node, k: &str, f: impl Fn(&str) -> Option<T>) -> Q<Option<T>> { match n.get(k) { None => Ok(None), Some(v) => f(v).map(Some).ok_or(()) } }
fn sub<T>(n: &Node, name: &str, f: impl Fn(&Node) -> Q<T>) -> Q<Option<T>> { let mut r = None; for c in n.all(name) { r = Some(f(c)?) } Ok(r) }
fn subs<T>(n: &Node, name: &str, f: impl Fn(&Node) -> Q<T>) -> Q<Vec<T>> { n.all(name).map(f).collect() }
fn rdoc(n: &Node) -> Q<Doc> { Ok(Doc { i: at(n, "i", num)?, a: n.last("a", num).ok_or(())?, b: n.last("b", bool1), c: subs(n, "c", item)?, d: sub(n, "d", item)?, e: n.last("e", num).unwrap_or(7), f: n.last("f", string) }) }
fn item(n: &Node) -> Q<Item> { Ok(Item { i: at(n, "i", num)?.ok_or(())?, s: at(n, "s", string)?, t: n.own_text(), g: n.last("g", num) }) }
fn rstr(n: &Node) -> Q<Str> { Ok(Str { s: n.last("s", string).ok_or(())?, o: n.last("o", string), v: n.each("v", string), a: at(n, "a", string)?, x: sub(n, "x", text)?, e: sub(n, "e", ev)? }) }
fn text(n: &Node) -> Q<Text> { Ok(Text { t: n.own_text(), k: n.last("k", num) }) }
/// An enum element holding children of one variant at most.
fn ev(n: &Node) -> Q<Ev> { if n.own_text() == "U" { return Ok(Ev::U) } if n.own_text() == "N" { return Ok(Ev::N) } if let Some(c) = n.all("s").last() { return Ok(Ev::S(c.plain().ok_or(())?)) } if let Some(c) = n.all("x").last() { return Ok(Ev::X(text(c)?)) } if n.all("v").next().is_some() { let mut l = vec![]; for c in n.all("v") { l.push(c.plain().ok_or(())?) } return Ok(Ev::V(l)) } if n.all("U").next().is_some() { return Ok(Ev::U) } Ok(Ev::N) }
fn pair(n: &Node) -> Q<Pair> { Ok(Pair { a: n.last("a", num), b: n.last("b", num) }) }
fn rlist(n: &Node) -> Q<List> { Ok(List { l: n.each("a", num), m: n.each("b", bool1), n: subs(n, "c", pair)?, o: n.each("d", string) }) }
fn fl(n: &Node) -> Q<Fl> { Ok(Fl { i: at(n, "i", num)?, a: n.last("a", num), f: Fp { j: at(n, "j", num)?, b: n.last("b", num), c: subs(n, "c", pair)?, s: n.last("s", string) }, g: match n.last("q", num) { Some(q) => Some(Fq { q, p: sub(n, "p", pair)? }), None => None }, z: n.last("z", num) }) }
fn rgen(n: &Node) -> Q<Gen<Pair>> { Ok(Gen { a: sub(n, "a", pair)?, b: subs(n, "b", pair)?, i: at(n, "i", num)? }) }
fn tg(n: &Node) -> Q<Tg> { match n.get("k") { Some("p") => Ok(Tg::P), Some("q") => Ok(Tg::Q), Some(_) => Ok(Tg::None), None => Err(()) } }
fn tags(n: &Node) -> Q<Tags> { Ok(Tags { a: subs(n, "a", tg)?, b: n.last("b", num) }) }
/// Character data in one of its spellings: (markup, what it denotes).
fn coded() -> (String, String) {
  let c = vis::<1>("c"); let hex = |n: u8| if n < 10 { b'0' + n } else { b'a' + n - 10 };
  match choice("form", 8) {
    0 => (esc(&c), c),
    1 => { assume(c != "]"); (cat!("<![CDATA[", c, "]]>"), c) }
    2 => { let b = c.as_bytes()[0]; let h = String::from_utf8(vec![hex(b >> 4), hex(b & 15)]).unwrap(); (cat!("&#x", h, ";"), c) }
    3 => { let (a, b) = pick("e", &[("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", "\""), ("&apos;", "'")]); (cat!(a, esc(&c)), cat!(b, c)) }
    4 => (cat!("<!-- ", "<a>1</a>", " -->", esc(&c), "<!---->"), c),
    5 => (cat!("a<!-- & -->", esc(&c)), cat!("a", c)),
    6 => { assume(c != "]"); (cat!("x<![CDATA[<b>", c, "</b>&amp;]]>y"), cat!("x<b>", c, "</b>&amp;y")) }
    _ => { let (d, _) = digit("d"); let d = d.to_string(); (cat!("&#6", d, ";"), String::from_utf8(vec![60 + d.as_bytes()[0] - b'0']).unwrap()) }
  }
}
fn acoded() -> (String, String) { let c = vis::<1>("c"); match choice("form", 4) { 0 => (esca(&c), c), 1 => { let (a, b) = pick("e", &[("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", "\""), ("&apos;", "'"), ("&#10;", "\n"), ("&#x9;", "\t"), ("&#x20ac;", "\u{20ac}")]); (cat!(a, esca(&c)), cat!(b, c)) } 2 => { assume(c != "\"" && c != "&" && c != "<"); (c.clone(), c) } _ => (cat!("&amp;lt;", esca(&c), " b"), cat!("&lt;", c, " b")) } }
harnesses! {
  fn q_words() { let w = word("w"); let e = esc(&w); let x = cat!("<Str a=\"", esca(&w), "\"><v>c</v><s>", e, "</s><o>", e, "</o><v>", e, "</v><x>", e, "</x><e><s>", e, "</s></e></Str>"); reads(&x, &Str { s: w.clone(), o: Some(w.clone()), v: vec!["c".into(), w.clone()], a: Some(w.clone()), x: Some(Text { t: w.clone(), k: None }), e: Some(Ev::S(w)) }) }
  fn q_numbers() { let n = number("n"); let t = dec(n as i128); reads(&cat!("<Nums><a>1</a><b>2</b><c>-3</c><d>", t, "</d><e>1</e><g>-", t, "</g><h>", dec(n as u32 as i128), "</h></Nums>"), &Nums { a: 1, b: 2, c: -3, d: n, e: true, f: None, g: Some((n as i64).wrapping_neg()), h: vec![n as u32] }) }
  fn q_tree_doc() { let n = tree(4); agrees(&n, rdoc(&n).ok()) }
  fn q_doc_a() { let n = tree(4).kid(Node::new("a").text("5")); agrees(&n, rdoc(&n).ok()) }
  fn q_doc_item() { let n = Node::new("doc").kid(Node::new("a").text("5")).kid(shape(pick("s", &["C(=id(d))", "C(@(d)t)", "D(=itG(d)t)", "C(@@d)", "D((d)=id)", "(=i(d))"]))).kid(shape(pick("r", &["(d)", "(=i)", "D(@)", "C(=i(d))"]))); agrees(&n, rdoc(&n).ok()) }
  fn q_doc_attr() { let n = Node::new("d"); let k = name::<1>("k"); let v = upto::<1>("v"); let n = n.attr(&k, &v).kid(Node::new("a").text("1")); agrees(&n, rdoc(&n).ok()) }
  fn q_item_attr() { let k = name::<1>("k"); let v = vis::<1>("v"); let n = Node::new("d").attr("i", &v); let n = if k == "i" { n } else { n.attr(&k, &v) }; agrees(&n, item(&n).ok()) }
  fn q_doc_long_names() { // names that begin or end like declared ones
    let k = name::<2>("k"); let n = Node::new("doc").kid(Node::new("a").text("1")).kid(Node::new(&k).attr("i", "2").text("3")); agrees(&n, rdoc(&n).ok()) }
  fn q_tree_list() { let n = tree(4); agrees(&n, rlist(&n).ok()) }
  fn q_list_order() { let n = shape(pick("s", &["((d)(d)(d)(d))", "(A(d)(d)C(A(d))(d)A(d))", "(C((d)(d))C(B(d)A(d))(d))", "(D(t)(d)D()(t)A(d))"])); agrees(&n, rlist(&n).ok()) }
  fn q_tree_flat() { let n = tree(4); agrees(&n, fl(&n).ok()) }
  fn q_flat_q() { let n = shape(pick("s", &["(Q(d)(d)(d))", "(Q(d)P((d))(d))", "(@@Q(d)(d))", "(Q((d))(d))", "(C((d))(d)C((d)(d)))", "(@(d)@(t))"])); agrees(&n, fl(&n).ok()) }
  fn q_tree_gen() { let n = tree(5); agrees(&n, rgen(&n).ok()) }
  fn q_gen_attr() { let n = shape(pick("s", &["(@(@A(d))(d))", "(@@B((d)(d))B())", "((d)B((d)A((d)))A())"])); agrees(&n, rgen(&n).ok()) }
  fn q_tags() { let n = Node::new("r"); let k = name::<1>("k"); let mut n = n; for i in 0..choice("n", 3) { let v = vis::<1>("v"); let a = name::<1>("a"); let c = Node::new(if i == 0 { &k } else { "a" }); n = n.kid(if flag("two") { c.attr("k", &v) } else { c.attr(&a, &v) }) } let n = n.kid(Node::new("b").text("4")); agrees(&n, tags(&n).ok()) }
  fn q_bool() { let t = upto::<2>("t"); let n = Node::new("r").kid(Node::new("a").text("1")).kid(Node::new("b").text(&t)); let n = if t.is_empty() { Node::new("r").kid(Node::new("a").text("1")).kid(Node::new("b")) } else { n }; agrees(&n, rdoc(&n).ok()) }
  // spellings of character data
  fn q_coded_elem() { let (x, t) = coded(); let at = choice("at", 6); let r = Node::new("r"); let s = Node::new("s").text("z"); let n = match at { 0 => r.kid(Node::new("s").raw(&x, &t)), 1 => r.kid(s).kid(Node::new("o").raw(&x, &t)), 2 => r.kid(Node::new("v").text("1")).kid(s).kid(Node::new("v").raw(&x, &t)), 3 => r.kid(s).kid(Node::new("x").raw(&x, &t).kid(Node::new("k").text("2"))), 4 => r.kid(s).kid(Node::new("e").kid(Node::new("s").raw(&x, &t))), _ => r.kid(Node::new("e").kid(Node::new("v").raw(&x, &t)).kid(Node::new("v").text("w"))).kid(s) }; agrees(&n, rstr(&n).ok()) }
  fn q_coded_twice() { let (x, t) = coded(); let (y, u) = (pick("y", &["<![CDATA[q]]>", "q", "&lt;", "<!-- -->"]), 0); let _ = u; let u = match y { "&lt;" => "<", "<!-- -->" => "", _ => "q" }; let n = Node::new("r").kid(Node::new("s").raw(&cat!(x, y), &cat!(t, u))).kid(Node::new("x").raw(y, u).raw(&x, &t)); agrees(&n, rstr(&n).ok()) }
  fn q_coded_ignored() { // data in parts that are not read
    let (x, t) = coded(); let k = name::<1>("k"); let n = Node::new("r").raw(&x, &t).kid(Node::new("s").text("z")).kid(Node::new("q").raw(&x, &t).kid(Node::new(&k).text("n"))).raw(&x, &t); agrees(&n, rstr(&n).ok()) }
  fn q_coded_num() { let (d, v) = digit("d"); let d = d.to_string(); let f = choice("f", 5); let x = match f { 0 => cat!("<![CDATA[", d, "]]>"), 1 => cat!("&#x3", d, ";"), 2 => cat!("<!-- 9 -->", d), 3 => cat!(d, "<!-- 9 -->"), _ => cat!("\n ", d, "\t") }; let n = Node::new("r").kid(Node::new("a").raw(&x, &d)).kid(Node::new("e").raw(&x, &d)); let _ = v; agrees(&n, rdoc(&n).ok()) }
  fn q_attr_coded() { let (x, t) = acoded(); let k = name::<1>("k"); let dq = flag("dq"); let d = if dq { cat!("<r ", k, "=\"", x, "\"><s>z</s></r>") } else { if x.contains('\'') { cover(0); return } cat!("<r ", k, " = '", x, "' ><s>z</s></r>") }; reads(&d, &Str { s: "z".into(), o: None, v: vec![], a: if k == "a" { Some(t) } else { None }, x: None, e: None }) }
  fn q_text_pieces() { // text around children and processing instructions
    let a = vis::<1>("a"); let b = name::<1>("b"); let k = name::<1>("k"); let (d, _) = digit("d"); let d = d.to_string(); let sep = choice("sep", 4); let n = Node::new("r").kid(Node::new("s").text("z")); let x = Node::new("x").text(&a); let x = match sep { 0 => x.kid(Node::new(&k).text(&d)), 1 => x.raw("<?p i?>", ""), 2 => x.raw("<!-- c -->", ""), _ => x.kid(Node::new(&k)).kid(Node::new("k").text(&d)) }; let n = n.kid(x.text(&b)); agrees(&n, rstr(&n).ok()) }
  fn q_enum() { let v = name::<1>("v"); let t = vis::<1>("t"); let (d, _) = digit("d"); let d = d.to_string(); let s = Node::new("s").text("z"); let e = Node::new("e"); let e = match choice("e", 6) { 0 => e.kid(Node::new(&v).text(&t)), 1 => e.text(&t), 2 => e.kid(Node::new(&v).text(&t)).kid(Node::new(&v).text(&d)), 3 => e.kid(Node::new("x").kid(Node::new(&v).text(&d)).text("u")), 4 => e, _ => e.kid(Node::new("q").kid(Node::new(&v).text(&t))) }; let n = Node::new("r").kid(s).kid(e); agrees(&n, rstr(&n).ok()) }
  fn q_nums() { let d: Vec<String> = (0..3).map(|_| digit("d").0.to_string()).collect(); let p = choice("p", 6); let sg = if flag("neg") { "-" } else { "" }; let c = cat!(sg, d[0], d[1], d[2]); let n = |l: &str, t: &str| Node::new(l).text(t); let r = Node::new("r").kid(n("a", if p == 0 { &c } else { "1" })).kid(n("b", if p == 1 { &c } else { "2" })).kid(n("c", if p == 2 { &c } else { "-3" })).kid(n("d", if p == 3 { &c } else { "4" })).kid(n("e", "true")).kid(n("g", if p == 4 { &c } else { "-5" })).kid(n("h", if p == 5 { &c } else { "6" })); let v = { let m = (d[0].as_bytes()[0] - b'0') as i64 * 100 + (d[1].as_bytes()[0] - b'0') as i64 * 10 + (d[2].as_bytes()[0] - b'0') as i64; if sg == "-" { -m } else { m } }; let ok = match p { 0 => v >= -128 && v <= 127, 1 | 3 => sg.is_empty(), _ => true }; let uh = p == 5 && sg == "-";
    let want = if ok { Some(Nums { a: if p == 0 { v as i8 } else { 1 }, b: if p == 1 { v as u16 } else { 2 }, c: if p == 2 { v as i32 } else { -3 }, d: if p == 3 { v as u64 } else { 4 }, e: true, f: None, g: Some(if p == 4 { v } else { -5 }), h: if uh { vec![] } else { vec![if p == 5 { v as u32 } else { 6 }] } }) } else { None }; agrees(&r, want) }
  fn q_layout() { // whitespace, comments and instructions between the parts, and a prolog
    let w = pick("w", &["", " ", "\n\t", "<!-- a -->", "<?p <a>9</a>?>", "\r\n<!-- <c i='1'/> -->\n"]); let v = pick("v", &["", " ", "\n", "<!-- -->"]); let p = pick("p", &["", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\n<!-- x -->\n", "<!DOCTYPE doc>\n", "<?p?>"]); let (d, n) = digit("d"); let d = d.to_string(); let x = cat!(p, "<doc i = '1' >", w, "<a", if v.starts_with('<') { "" } else { v }, ">", v, d, v, "</a ", "\n>", w, "<c i=\"2\"\n>", d, "</c>", w, "<f/>", v, "</doc>", v, w); reads(&x, &Doc { i: Some(1), a: n, b: None, c: vec![Item { i: 2, s: None, t: d, g: None }], d: None, e: 7, f: Some(String::new()) }) }
  // lists in attributes: items between runs of whitespace
  fn q_attr_list() { let mut x = String::new(); let mut v = String::new(); let b = bytes::<4>("b"); let n = choice("n", 5) as usize; for i in 0..4 { if i < n { let c = b[i]; assume(c > 32 && c < 127 && c != b'<' && c != b'&' && c != b'"' || c == b' ' || c == b'\n' || c == b'\t'); let _ = c; x.push_str(match c { b'\n' => "&#10;", b'\t' => "&#9;", b' ' => " ", _ => "" }); if c > 32 { x.push(c as char) } v.push(c as char) } else { assume(b[i] == 0) } }
    let items: Vec<&str> = v.split(|c| c == ' ' || c == '\n' || c == '\t').filter(|p| !p.is_empty()).collect(); reads(&cat!("<Al s=\"", x, "\"/>"), &Al { s: items.iter().map(|s| s.to_string()).collect(), n: vec![], b: vec![] }) }
  fn q_attr_list_num() { let (d, k) = digit("d"); let d = d.to_string(); let s1 = pick("s1", &["", " ", "&#9;", "&#10;", "  ", "&#13;"]); let s2 = pick("s2", &[" ", "&#9;", "&#10; ", "  ", "&#13;&#10;", "\u{a0}", "\u{2003}"]); let e = pick("e", &["", " ", "&#10;", "&#9; "]); match choice("t", 2) { 0 => reads(&cat!("<Al n='", s1, d, s2, "25", d, s2, "7", e, "'/>").replace(&cat!("25", d), "25"), &Al { s: vec![], n: vec![k, 25, 7], b: vec![] }), _ => reads(&cat!("<Al b='", s1, "1", s2, "false", s2, "0", e, "'/>"), &Al { s: vec![], n: vec![], b: vec![true, false, false] }) } }
  // a reader made by the caller: a document without layout reads as with the usual one
  fn q_reader() { let t = choice("ty", 3); let n = tree(3); match t { 0 => { let n = n.kid(Node::new("a").text("5")); made(&n, rdoc(&n).ok()) } 1 => made(&n, rlist(&n).ok()), _ => made(&n, fl(&n).ok()) } }
  fn q_reader_text() { let c = name::<2>("c"); let k = name::<1>("k"); let n = Node::new("r").kid(Node::new("s").text(&c)).kid(Node::new(&k).text(&c)).kid(Node::new("e").kid(Node::new("s").text(&c))).kid(Node::new("x").text(&c)); if k != "x" && k != "e" { made(&n, rstr(&n).ok()) } }
  fn t_tree_doc() { let n = tree(5).kid(Node::new("a").text("5")); agrees(&n, rdoc(&n).ok()) }
  fn t_tree_list() { let n = tree(5); agrees(&n, rlist(&n).ok()) }
  fn t_tree_flat() { let n = tree(5); agrees(&n, fl(&n).ok()) }
  fn t_tree_gen() { let n = tree(6); agrees(&n, rgen(&n).ok()) }
}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Al { #[yaserde(attribute = true)] s: Vec<String>, #[yaserde(attribute = true)] n: Vec<u8>, #[yaserde(attribute = true)] b: Vec<bool> }
fn made<T: YaDeserialize + PartialEq>(n: &Node, want: Option<T>) {
  use yaserde::__xml::reader::{EventReader, ParserConfig};
  let x = n.xml(); observe(x.as_bytes()); let c = match choice("set", 4) { 0 => ParserConfig::new(), 1 => ParserConfig::new().trim_whitespace(true).ignore_comments(false), 2 => ParserConfig::new().cdata_to_characters(true).coalesce_characters(false), _ => ParserConfig::new().whitespace_to_characters(true) };
  match (T::deserialize(&mut yaserde::de::Deserializer::new(EventReader::new_with_config(x.as_bytes(), c))), want) { (Ok(a), Some(b)) => check!(a == b, "value read differs from the document"), (Err(_), None) => {} (Ok(_), None) => violation("a document that must be refused was read"), (Err(_), Some(_)) => violation("a document of this type was refused") }
  cover(0)
}
