use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct El { a: String, b: Option<String>, c: Vec<String>, #[yaserde(default = "ds")] d: String, e: u8, f: Option<i32>, #[yaserde(default = "dn")] g: i16, #[yaserde(default = "dt")] h: bool, i: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct At { #[yaserde(attribute = true)] a: String, #[yaserde(attribute = true)] b: Option<String>, #[yaserde(attribute = true, default = "ds")] d: String, #[yaserde(attribute = true)] e: i8, #[yaserde(attribute = true)] f: Option<u32>, #[yaserde(attribute = true, default = "dn")] g: i16, #[yaserde(attribute = true, default = "dt")] h: bool, #[yaserde(attribute = true)] o: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct St { a: Leaf, b: Option<Leaf>, c: Vec<Leaf>, #[yaserde(default = "dl")] d: Leaf, x: Un, y: Option<Un>, #[yaserde(default = "du")] z: Un, v: Vec<Un> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, B, C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct AtE { #[yaserde(attribute = true)] a: Un, #[yaserde(attribute = true)] b: Option<Un>, #[yaserde(attribute = true, default = "du")] c: Un, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ty { a: i8, b: u8, c: i16, d: u16, e: i32, f: u32, g: i64, h: u64, i: f32, j: f64, k: bool, l: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ta { #[yaserde(attribute = true)] a: i8, #[yaserde(attribute = true)] b: u8, #[yaserde(attribute = true)] c: i16, #[yaserde(attribute = true)] d: u16, #[yaserde(attribute = true)] e: i32, #[yaserde(attribute = true)] f: u32, #[yaserde(attribute = true)] g: i64, #[yaserde(attribute = true)] h: u64, #[yaserde(attribute = true)] i: f32, #[yaserde(attribute = true)] j: f64, #[yaserde(attribute = true)] k: bool, #[yaserde(attribute = true)] l: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Od { a: Option<i8>, b: Option<u8>, c: Option<i16>, d: Option<u16>, e: Option<i32>, f: Option<u32>, g: Option<i64>, h: Option<u64>, i: Option<f32>, j: Option<f64>, k: Option<bool>, l: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Dd { #[yaserde(default = "d1")] a: i8, #[yaserde(default = "d2")] b: u8, #[yaserde(default = "d3")] c: u16, #[yaserde(default = "d4")] d: i32, #[yaserde(default = "d5")] e: u32, #[yaserde(default = "d6")] f: i64, #[yaserde(default = "d7")] g: u64, #[yaserde(default = "d8")] h: f32, #[yaserde(default = "d9")] i: f64, #[yaserde(attribute = true, default = "d1")] j: i8, #[yaserde(attribute = true, default = "d9")] k: f64, #[yaserde(rename = "q-q", default = "ds")] l: String, #[yaserde(rename = "r-r")] m: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { a: String, #[yaserde(flatten = true)] f: Inn, #[yaserde(default = "ds")] d: String, o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Inn { x: String, y: Option<String>, #[yaserde(default = "dn")] z: i16, v: Vec<u8>, #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(attribute = true)] r: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nest { n: Req, o: Option<Req>, v: Vec<Req>, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Req { a: String, #[yaserde(attribute = true)] k: u8, o: Option<String>, #[yaserde(default = "dn")] d: i16 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tx { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct To { #[yaserde(attribute = true, default = "dn")] k: i16, #[yaserde(text = true)] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Td { #[yaserde(text = true, default = "ds")] t: String, o: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] a: String, #[yaserde(prefix = "n")] b: Option<String>, #[yaserde(prefix = "n", default = "ds")] d: String, #[yaserde(prefix = "n")] v: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String, o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] N, P(Req), S(String) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct He { e: Ev, o: Option<Ev>, v: Vec<Ev> }
fn ds() -> String { "df".into() }
fn dn() -> i16 { -7 }
fn dt() -> bool { true }
fn du() -> Un { Un::C }
fn dl() -> Leaf { Leaf { s: Some("dl".into()), k: None } }
fn d1() -> i8 { -11 } fn d2() -> u8 { 12 } fn d3() -> u16 { 13 } fn d4() -> i32 { -14 } fn d5() -> u32 { 15 } fn d6() -> i64 { -16 } fn d7() -> u64 { 17 } fn d8() -> f32 { 1.25 } fn d9() -> f64 { -2.5 }
fn s(x: &str) -> String { x.into() }
/// present or absent
fn p<'a>(n: &str, x: &'a str, o: &mut String) -> bool { let f = flag(n); if f { o.push_str(x) } f }
fn v1() -> String { vis::<1>("v") }
fn got<T: YaDeserialize + PartialEq>(d: &str, want: Option<T>) { observe(d.as_bytes()); match (de::<T>(d), want) { (Ok(g), Some(w)) => check!(g == w, "value read differs from the document"), (Err(_), None) => {} (Ok(_), None) => violation("read although a required part is absent"), (Err(_), Some(_)) => violation("refused although every required part is present") } cover(0) }
fn b2(x: bool) -> Vec<String> { if x { vec![s("1"), s("")] } else { vec![] } }
harnesses! {
  fn q_words() { let w = word("w"); let e = esc(&w); let b = flag("b"); let d = cat!("<El>", el("a", &e), if b { el("b", &e) } else { String::new() }, el("c", &e), el("d", &e), "<e>9</e></El>"); reads(&d, &El { a: w.clone(), b: b.then(|| w.clone()), c: vec![w.clone()], d: w.clone(), e: 9, f: None, g: -7, h: true, i: vec![] }); reads(&cat!("<Td>", e, "</Td>"), &Td { t: w.clone(), o: None }) }
  fn q_names_absent() { let n = wname("n"); assume(n.len() > 1); got::<El>(&cat!("<El><", n, ">1</", n, "><e>9</e></El>"), None); reads(&cat!("<El ", n, "=\"x\"><a>q</a><", n, ">1</", n, "><e>9</e></El>"), &El { a: s("q"), b: None, c: vec![], d: ds(), e: 9, f: None, g: -7, h: true, i: vec![] }) }
  fn q_elem() { let mut d = s("<El>"); let x = v1(); let a = p("a", &el("a", &esc(&x)), &mut d); let b = p("b", "<b>bb</b>", &mut d); let c = p("c", "<c>1</c><c/>", &mut d); let dd = p("d", "<d>dd</d>", &mut d); let e = p("e", "<e>9</e>", &mut d); let f = p("f", "<f>-5</f>", &mut d); let g = p("g", "<g>6</g>", &mut d); let h = p("h", "<h>false</h>", &mut d); let i = p("i", "<i>3</i>", &mut d); d.push_str("</El>");
    got(&d, if a && e { Some(El { a: x, b: b.then(|| s("bb")), c: b2(c), d: if dd { s("dd") } else { ds() }, e: 9, f: f.then_some(-5), g: if g { 6 } else { -7 }, h: !h, i: if i { vec![3] } else { vec![] } }) } else { None }) }
  fn q_elem_default_value() { // the default's own value, the type's zero value and empty text when present
    let t = pick("t", &["", "df", "q"]); let (n, nv) = pick("n", &[("-7", -7i16), ("0", 0)]); let h = flag("h"); reads(&cat!("<El><a></a><d>", t, "</d><e>0</e><g>", n, "</g><h>", if h { "1" } else { "0" }, "</h></El>"), &El { a: s(""), b: None, c: vec![], d: s(t), e: 0, f: None, g: nv, h, i: vec![] }) }
  fn q_attr() { let mut d = s("<At"); let x = v1(); let a = p("a", &cat!(" a=\"", esca(&x), "\""), &mut d); let b = p("b", " b='bb'", &mut d); let dd = p("d", " d='dd'", &mut d); let e = p("e", " e='-9'", &mut d); let f = p("f", " f='5'", &mut d); let g = p("g", " g='6'", &mut d); let h = p("h", " h='false'", &mut d); let o = p("o", " o='1'", &mut d); d.push_str("/>");
    got(&d, if a && e { Some(At { a: x, b: b.then(|| s("bb")), d: if dd { s("dd") } else { ds() }, e: -9, f: f.then_some(5), g: if g { 6 } else { -7 }, h: !h, o: o.then_some(true) }) } else { None }) }
  fn q_attr_default_value() { let t = pick("t", &["", "df", " "]); let b = opt("b", || pick("bv", &["", " ", "b"])); let h = flag("h"); reads(&cat!("<At a='' d='", t, "'", b.map_or(s(""), |b| cat!(" b='", b, "'")), " e='0' g='0' h='", if h { "1" } else { "0" }, "'/>"), &At { a: s(""), b: b.map(s), d: s(t), e: 0, f: None, g: 0, h, o: None }) }
  fn q_struct() { let mut d = s("<St>"); let x = v1(); let a = p("a", &cat!("<a>", el("s", &esc(&x)), "</a>"), &mut d); let b = p("b", "<b k='1'/>", &mut d); let c = p("c", "<c/><c k='2'/>", &mut d); let dd = p("d", "<d/>", &mut d); let xx = p("x", "<x>B</x>", &mut d); let y = p("y", "<y>B</y>", &mut d); let z = p("z", "<z>A</z>", &mut d); let v = p("v", "<v>C</v>", &mut d); d.push_str("</St>"); let l = |k| Leaf { s: None, k };
    got(&d, if a && xx { Some(St { a: Leaf { s: Some(x), k: None }, b: b.then(|| l(Some(1))), c: if c { vec![l(None), l(Some(2))] } else { vec![] }, d: if dd { l(None) } else { dl() }, x: Un::B, y: y.then_some(Un::B), z: if z { Un::A } else { Un::C }, v: if v { vec![Un::C] } else { vec![] } }) } else { None }) }
  fn q_enum_attr() { let mut d = s("<AtE"); let a = p("a", " a='B'", &mut d); let b = p("b", " b='C'", &mut d); let c = p("c", " c='A'", &mut d); d.push_str(">"); let t = p("s", "<s>x</s>", &mut d); d.push_str("</AtE>"); got(&d, a.then(|| AtE { a: Un::B, b: b.then_some(Un::C), c: if c { Un::A } else { Un::C }, s: t.then(|| s("x")) })) }
  fn q_types() { let m = choice("miss", 13); let mut d = s("<Ty>"); for (i, (n, v)) in [("a", "-1"), ("b", "2"), ("c", "-3"), ("d", "4"), ("e", "-5"), ("f", "6"), ("g", "-7"), ("h", "8"), ("i", "1.5"), ("j", "2.5"), ("k", "1"), ("l", "x")].iter().enumerate() { if i != m as usize { d.push_str(&el(n, v)) } } d.push_str("</Ty>"); got(&d, (m == 12).then(|| Ty { a: -1, b: 2, c: -3, d: 4, e: -5, f: 6, g: -7, h: 8, i: 1.5, j: 2.5, k: true, l: s("x") })) }
  fn q_types_attr() { let m = choice("miss", 13); let mut d = s("<Ta"); for (i, (n, v)) in [("a", "-1"), ("b", "2"), ("c", "-3"), ("d", "4"), ("e", "-5"), ("f", "6"), ("g", "-7"), ("h", "8"), ("i", "1.5"), ("j", "2.5"), ("k", "1"), ("l", "x")].iter().enumerate() { if i != m as usize { d.push_str(&cat!(" ", n, "='", v, "'")) } } d.push_str("/>"); got(&d, (m == 12).then(|| Ta { a: -1, b: 2, c: -3, d: 4, e: -5, f: 6, g: -7, h: 8, i: 1.5, j: 2.5, k: true, l: s("x") })) }
  fn q_types_opt() { let m = choice("miss", 13); let k = |i: u8| i != m; let mut d = s("<Od>"); for (i, (n, v)) in [("a", "-1"), ("b", "2"), ("c", "-3"), ("d", "4"), ("e", "-5"), ("f", "6"), ("g", "-7"), ("h", "8"), ("i", "1.5"), ("j", "2.5"), ("k", "1"), ("l", "x")].iter().enumerate() { if k(i as u8) { d.push_str(&el(n, v)) } } d.push_str("</Od>"); got(&d, Some(Od { a: k(0).then_some(-1), b: k(1).then_some(2), c: k(2).then_some(-3), d: k(3).then_some(4), e: k(4).then_some(-5), f: k(5).then_some(6), g: k(6).then_some(-7), h: k(7).then_some(8), i: k(8).then_some(1.5), j: k(9).then_some(2.5), k: k(10).then_some(true), l: k(11).then(|| s("x")) })) }
  fn q_types_default() { let m = choice("one", 14); let k = |i: u8| i == m; let d = match m { 0 => "<Dd><a>1</a></Dd>", 1 => "<Dd><b>1</b></Dd>", 2 => "<Dd><c>1</c></Dd>", 3 => "<Dd><d>1</d></Dd>", 4 => "<Dd><e>1</e></Dd>", 5 => "<Dd><f>1</f></Dd>", 6 => "<Dd><g>1</g></Dd>", 7 => "<Dd><h>1</h></Dd>", 8 => "<Dd><i>1</i></Dd>", 9 => "<Dd j='1'/>", 10 => "<Dd k='1'/>", 11 => "<Dd><q-q>1</q-q></Dd>", 12 => "<Dd><r-r>1</r-r></Dd>", _ => "<Dd/>" };
    got(d, Some(Dd { a: if k(0) { 1 } else { -11 }, b: if k(1) { 1 } else { 12 }, c: if k(2) { 1 } else { 13 }, d: if k(3) { 1 } else { -14 }, e: if k(4) { 1 } else { 15 }, f: if k(5) { 1 } else { -16 }, g: if k(6) { 1 } else { 17 }, h: if k(7) { 1.0 } else { 1.25 }, i: if k(8) { 1.0 } else { -2.5 }, j: if k(9) { 1 } else { -11 }, k: if k(10) { 1.0 } else { -2.5 }, l: if k(11) { s("1") } else { ds() }, m: k(12).then_some(1) })) }
  fn q_flat() { let mut d = s("<Fl"); let k = p("k", " k='4'", &mut d); let r = p("r", " r='5'", &mut d); d.push_str(">"); let a = p("a", "<a>aa</a>", &mut d); let v = v1(); let x = p("x", &el("x", &esc(&v)), &mut d); let y = p("y", "<y>yy</y>", &mut d); let z = p("z", "<z>6</z>", &mut d); let l = p("v", "<v>1</v><v>2</v>", &mut d); let dd = p("d", "<d>dd</d>", &mut d); let o = p("o", "<o>3</o>", &mut d); d.push_str("</Fl>");
    got(&d, (a && x && r).then(|| Fl { a: s("aa"), f: Inn { x: v, y: y.then(|| s("yy")), z: if z { 6 } else { -7 }, v: if l { vec![1, 2] } else { vec![] }, k: k.then_some(4), r: 5 }, d: if dd { s("dd") } else { ds() }, o: o.then_some(3) })) }
  fn q_nested() { // an incomplete nested struct makes reading fail, wherever it is
    let w = choice("where", 3); let mut d = s("<Nest>"); let mut ok = true; let req = |ka: bool, aa: bool| cat!(if ka { " k='1'>" } else { ">" }, if aa { "<a>x</a>" } else { "" }); for (i, n) in ["n", "o", "v"].iter().enumerate() { let (ka, aa) = if i == w as usize { let f = flag("k"); let g = flag("a"); (f, g) } else { (true, true) }; ok = ok && ka && aa; d.push_str(&cat!("<", n, req(ka, aa), "</", n, ">")) } d.push_str("</Nest>"); let r = || Req { a: s("x"), k: 1, o: None, d: -7 }; got(&d, ok.then(|| Nest { n: r(), o: Some(r()), v: vec![r()], s: None })) }
  fn q_nested_parts() { let mut d = s("<Nest>"); let n = p("n", "<n k='1'><a>1</a><o>p</o></n>", &mut d); let o = p("o", "<o k='2'><a>2</a><d>9</d></o>", &mut d); let v = p("v", "<v k='3'><a/></v><v k='4'><a/><d>8</d></v>", &mut d); let t = p("s", "<s/>", &mut d); d.push_str("</Nest>"); got(&d, n.then(|| Nest { n: Req { a: s("1"), k: 1, o: Some(s("p")), d: -7 }, o: o.then(|| Req { a: s("2"), k: 2, o: None, d: 9 }), v: if v { vec![Req { a: s(""), k: 3, o: None, d: -7 }, Req { a: s(""), k: 4, o: None, d: 8 }] } else { vec![] }, s: t.then(|| s("")) })) }
  fn q_required_wrong_place() { // the name elsewhere does not count as presence
    match choice("w", 7) { 0 => refused::<Req>("<Req k='1' a='x'/>"), 1 => refused::<Req>("<Req><a k='1'>x</a></Req>"), 2 => refused::<Req>("<Req><k>1</k><a>x</a></Req>"), 3 => refused::<Req>("<Req k='1'><q><a>x</a></q></Req>"), 4 => refused::<Req>("<Req k='1'>a</Req>"), 5 => refused::<Req>("<Req k='1'><A>x</A><aa>x</aa></Req>"), _ => refused::<Req>("<Req K='1' kk='1'><a>x</a></Req>") } }
  fn q_text() { let k = flag("k"); let t = opt("t", v1); let at = if k { " k='3'" } else { "" }; match choice("w", 3) { 0 => got(&cat!("<Tx", at, ">", t.as_ref().map_or(s(""), |t| esc(t)), "</Tx>"), Some(Tx { k: k.then_some(3), t: t.unwrap_or(s("")) })), 1 => got(&cat!("<To", at, ">", t.as_ref().map_or(s(""), |t| esc(t)), "</To>"), Some(To { k: if k { 3 } else { -7 }, t })), _ => got(&cat!("<Td>", t.as_ref().map_or(s(""), |t| esc(t)), if k { "<o/>" } else { "" }, "</Td>"), Some(Td { t: t.unwrap_or(ds()), o: k.then(|| s("")) })) } }
  fn q_ns() { let mut d = s("<n:Ns xmlns:n='ab'>"); let x = v1(); let a = p("a", &el("n:a", &esc(&x)), &mut d); let b = p("b", "<n:b>bb</n:b>", &mut d); let dd = p("d", "<n:d>dd</n:d>", &mut d); let v = p("v", "<n:v>1</n:v>", &mut d); d.push_str("</n:Ns>"); got(&d, a.then(|| Ns { a: x, b: b.then(|| s("bb")), d: if dd { s("dd") } else { ds() }, v: if v { vec![1] } else { vec![] } })) }
  fn q_ns_wrong() { let mut d = s("<n:Ns xmlns:n='ab'>"); let a = p("a", "<n:a>1</n:a>", &mut d); p("wa", "<a>2</a>", &mut d); p("wb", "<b>2</b><z:b xmlns:z='q'>3</z:b>", &mut d); p("wd", "<d>2</d>", &mut d); p("wv", "<v>2</v>", &mut d); d.push_str("</n:Ns>"); got(&d, a.then(|| Ns { a: s("1"), b: None, d: ds(), v: vec![] })) }
  fn q_cdata() { let o = flag("o"); let od = if o { "<o>1</o>" } else { "" }; match choice("c", 3) { 0 => got::<Cd>(&cat!("<Cd>", od, "</Cd>"), None), 1 => got(&cat!("<Cd><c/>", od, "</Cd>"), Some(Cd { c: s(""), o: o.then_some(1) })), _ => { let x = v1(); assume(x != "]"); got(&cat!("<Cd>", od, "<c><![CDATA[", x, "]]></c></Cd>"), Some(Cd { c: x, o: o.then_some(1) })) } } }
  fn q_enum() { let mut d = s("<He>"); let e = p("e", "<e><S>1</S></e>", &mut d); let o = p("o", "<o><P k='1'><a>2</a></P></o>", &mut d); let v = p("v", "<v/><v>N</v><v><S/></v>", &mut d); d.push_str("</He>"); got(&d, e.then(|| He { e: Ev::S(s("1")), o: o.then(|| Ev::P(Req { a: s("2"), k: 1, o: None, d: -7 })), v: if v { vec![Ev::N, Ev::N, Ev::S(s(""))] } else { vec![] } })) }
  fn q_enum_payload() { let k = flag("k"); let a = flag("a"); let d = cat!("<Ev><P", if k { " k='1'" } else { "" }, ">", if a { "<a>2</a>" } else { "" }, "</P></Ev>"); got(&d, (k && a).then(|| Ev::P(Req { a: s("2"), k: 1, o: None, d: -7 }))); got(&cat!("<He><e>N</e><v>", &d[4..d.len() - 5], "</v></He>"), (k && a).then(|| He { e: Ev::N, o: None, v: vec![Ev::P(Req { a: s("2"), k: 1, o: None, d: -7 })] })) }
  fn q_empty_root() { got::<El>("<El/>", None); got::<At>("<At></At>", None); got("<Od/>", Some(Od { a: None, b: None, c: None, d: None, e: None, f: None, g: None, h: None, i: None, j: None, k: None, l: None })); got("<Leaf/>", Some(Leaf { s: None, k: None })); cover(0) }
}
