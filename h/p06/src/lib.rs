use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "R", prefix = "n", namespaces = { "n" = "ab", "o" = "cd" })]
struct Rt { #[yaserde(prefix = "n")] a: String, #[yaserde(prefix = "o")] b: Option<String>, c: Option<u8>, #[yaserde(prefix = "o")] v: Vec<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "rt", prefix = "n", default_namespace = "n", namespaces = { "n" = "ab", "o" = "cd" })]
struct Df { #[yaserde(prefix = "n")] a: String, #[yaserde(prefix = "o")] b: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab", "o" = "cd" })]
struct Outer { #[yaserde(prefix = "n")] i: Inner, #[yaserde(prefix = "o")] j: Vec<Inner>, #[yaserde(prefix = "o")] k: Option<Plain> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Inner { #[yaserde(prefix = "n")] a: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Plain { a: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(namespaces = { "n" = "ab", "o" = "cd" })]
struct Attr { #[yaserde(attribute = true, prefix = "n")] x: String, #[yaserde(attribute = true, prefix = "o")] y: Option<String>, #[yaserde(attribute = true)] z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(namespaces = { "n" = "ab" })]
struct Free { #[yaserde(prefix = "n")] a: Option<String>, b: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(rename = "ev", prefix = "n", namespaces = { "n" = "ab", "o" = "cd" })]
enum E { #[default] #[yaserde(prefix = "n")] A, #[yaserde(prefix = "n")] I(String), #[yaserde(prefix = "o", rename = "P")] P(Plain) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "s", prefix = "n", namespaces = { "n" = "ab" })]
struct Same { #[yaserde(prefix = "n", rename = "a")] x: Option<String>, #[yaserde(rename = "a")] y: Option<String> }
fn val() -> String { upto::<1>("val") }
fn st(s: &str) -> Option<String> { Some(s.to_string()) }
fn pre(n: &str) -> String { name::<1>(n) }
/// a namespace URI of two visible characters that need no escaping
fn uri(n: &str) -> String { let u = vis::<2>(n); for c in u.bytes() { assume(c != b'<' && c != b'&' && c != b'"' && c != b'\'' && c != b'>') } u }
/// "ab" with a character more somewhere, blanks included
fn off() -> String { let i = choice("i", 3) as usize; let c = if flag("code") { pick("c", &["&#9;", "&#10;", "&#13;", "&#32;", "&#160;", "&#x2003;", "&amp;", "&lt;", "\u{e9}"]).to_string() } else { let c = any::<1>("c"); assume(!matches!(&c[..], "<" | "&" | "\"")); c }; cat!("ab"[..i], c, "ab"[i..]) }
harnesses! {
  fn q_uri_off() { let u = off(); match choice("at", 6) {
    0 => refused::<Rt>(&cat!("<p:R xmlns:p=\"", u, "\" xmlns:n=\"ab\"><n:a>1</n:a></p:R>")),
    1 => refused::<Rt>(&cat!("<n:R xmlns:n=\"ab\" xmlns:p=\"", u, "\"><p:a>1</p:a></n:R>")),
    2 => refused::<Df>(&cat!("<rt xmlns=\"", u, "\" xmlns:n=\"ab\"><n:a>1</n:a></rt>")),
    3 => refused::<E>(&cat!("<p:ev xmlns:p=\"", u, "\" xmlns:n=\"ab\"><n:I>1</n:I></p:ev>")),
    4 => refused::<Outer>(&cat!("<n:Outer xmlns:n=\"ab\" xmlns:p=\"", u, "\"><n:i><p:a>1</p:a></n:i></n:Outer>")),
    _ => reads(&cat!("<Free xmlns:n=\"", u, "\"><n:a>1</n:a><n:b>2</n:b></Free>"), &Free { a: None, b: None }) } }
  fn q_words() { let w = word("w"); match choice("k", 3) {
    0 => { assume(w != "ab"); let x = cat!("<q:R xmlns:q=\"", esca(&w), "\"><q:a>1</q:a></q:R>"); refused::<Rt>(&x); reads(&cat!("<Free xmlns:q=\"", esca(&w), "\"><q:a>1</q:a><b>2</b></Free>"), &Free { a: None, b: Some("2".into()) }) }
    1 => writes(&Rt { a: w.clone(), b: Some(w.clone()), c: None, v: vec![w.clone()] }, &doc(&cat!("<n:R xmlns:n=\"ab\" xmlns:o=\"cd\">", el("n:a", &esc(&w)), el("o:b", &esc(&w)), el("o:v", &esc(&w)), "</n:R>"))),
    _ => reads(&cat!("<q:R xmlns:q=\"ab\" xmlns:", wname("p"), "=\"cd\"><q:a>", esc(&w), "</q:a></q:R>"), &Rt { a: w, b: None, c: None, v: vec![] }) } }
  fn q_prefix_words() { let n = wname("n"); let c = vis::<1>("c"); reads(&cat!("<", n, ":R xmlns:", n, "=\"ab\" xmlns:z=\"cd\"><z:a>8</z:a><", n, ":a>", esc(&c), "</", n, ":a><z:b>9</z:b></", n, ":R>"), &Rt { a: c, b: Some("9".into()), c: None, v: vec![] }) }
  // ---- written names and declarations
  fn q_w_struct() { let s = val(); let b = opt("b", || val()); let c = opt("c", || below("cv", 10)); let v = list("v", 2, || "w".to_string());
    let mut e = cat!("<n:R xmlns:n=\"ab\" xmlns:o=\"cd\">", el("n:a", &esc(&s)));
    if let Some(b) = &b { e.push_str(&el("o:b", &esc(b))) } if let Some(c) = c { e.push_str("<c>"); e.push((b'0' + c) as char); e.push_str("</c>") } for _ in &v { e.push_str("<o:v>w</o:v>") } e.push_str("</n:R>");
    writes(&Rt { a: s, b, c, v }, &doc(&e)) }
  fn q_w_default() { let s = val(); let b = opt("b", || val()); let mut e = cat!("<rt xmlns=\"ab\" xmlns:o=\"cd\">", el("a", &esc(&s))); if let Some(b) = &b { e.push_str(&el("o:b", &esc(b))) } e.push_str("</rt>"); writes(&Df { a: s, b }, &doc(&e)) }
  fn q_w_attr() { let x = any::<1>("x"); let y = opt("y", || any::<1>("yv")); let z = opt("z", || "q".to_string()); let mut e = cat!("<Attr xmlns:n=\"ab\" xmlns:o=\"cd\" n:x=\"", esca(&x), "\""); if let Some(y) = &y { e.push_str(&cat!(" o:y=\"", esca(y), "\"")) } if z.is_some() { e.push_str(" z=\"q\"") } e.push_str(" />"); writes(&Attr { x, y, z }, &doc(&e)) }
  fn q_w_enum() { match choice("v", 3) { 0 => writes(&E::A, &doc("<n:ev xmlns:n=\"ab\" xmlns:o=\"cd\">n:A</n:ev>")), 1 => { let s = val(); writes(&E::I(s.clone()), &doc(&cat!("<n:ev xmlns:n=\"ab\" xmlns:o=\"cd\">", el("n:I", &esc(&s)), "</n:ev>"))) }
    _ => { let s = val(); writes(&E::P(Plain { a: s.clone() }), &doc(&cat!("<n:ev xmlns:n=\"ab\" xmlns:o=\"cd\"><o:P>", el("a", &esc(&s)), "</o:P></n:ev>"))) } } }
  fn q_w_nested() { let s = val(); let n = choice("n", 3); let i = || Inner { a: s.clone() }; let ie = |p: &str, t: &str| cat!("<", p, ":", t, if p == "n" { "" } else { " xmlns:n=\"ab\"" }, ">", el("n:a", &esc(&s)), "</", p, ":", t, ">");
    let k = opt("k", || Plain { a: s.clone() }); let out = ser(&Outer { i: i(), j: (0..n).map(|_| i()).collect(), k: k });
    // declarations may be repeated on nested elements: compare modulo repeated xmlns:n
    let norm = out.replace(" xmlns:n=\"ab\"", ""); let mut e = cat!("<n:Outer xmlns:o=\"cd\">", ie("n", "i")); for _ in 0..n { e.push_str(&ie("o", "j")) } if out.contains("o:k>") { e.push_str(&cat!("<o:k>", el("a", &esc(&s)), "</o:k>")) } e.push_str("</n:Outer>");
    let e = doc(&e.replace(" xmlns:n=\"ab\"", "")); observe(e.as_bytes()); check!(norm == e, "output is not the prescribed document"); check!(out.starts_with(&doc("<n:Outer xmlns:n=\"ab\" xmlns:o=\"cd\">")), "namespaces of the root are not declared"); cover(0) }
  // ---- any prefix spelling
  fn q_prefix() { let p = pre("p"); let q = pre("q"); assume(p != q); let s = "v";
    reads(&cat!("<", p, ":R xmlns:", p, "=\"ab\" xmlns:", q, "=\"cd\"><", p, ":a>", s, "</", p, ":a><", q, ":b>w</", q, ":b><c>3</c><", q, ":v>x</", q, ":v></", p, ":R>"), &Rt { a: s.into(), b: st("w"), c: Some(3), v: vec!["x".into()] }) }
  fn q_prefix2() { let p = name::<2>("p"); let b = opt("b", || "b".to_string()); let bd = if b.is_some() { "<z:b xmlns:z=\"cd\">b</z:b>" } else { "" };
    reads(&cat!("<", p, ":rt xmlns:", p, "=\"ab\"><", p, ":a>v</", p, ":a>", bd, "</", p, ":rt>"), &Df { a: "v".into(), b }) }
  fn q_prefix_local() { let p = pre("p"); reads(&cat!("<R xmlns=\"ab\"><", p, ":a xmlns:", p, "=\"ab\">1</", p, ":a><b xmlns=\"cd\">2</b><v xmlns=\"cd\">3</v></R>"), &Rt { a: "1".into(), b: st("2"), c: None, v: vec!["3".into()] }) }
  fn q_prefix_swap() { reads("<o:R xmlns:o=\"ab\" xmlns:n=\"cd\"><o:a>1</o:a><n:b>2</n:b><n:v>3</n:v></o:R>", &Rt { a: "1".into(), b: st("2"), c: None, v: vec!["3".into()] });
    check!(de::<Rt>("<o:R xmlns:o=\"ab\" xmlns:n=\"cd\"><n:a>1</n:a></o:R>").is_err(), "an element of another namespace was taken for the configured one") }
  fn q_prefix_attr() { let p = pre("p"); let q = pre("q"); assume(p != q); reads(&cat!("<Attr xmlns:", p, "=\"ab\" xmlns:", q, "=\"cd\" ", q, ":y=\"2\" ", p, ":x=\"1\" z=\"3\" />"), &Attr { x: "1".into(), y: st("2"), z: st("3") }) }
  fn q_prefix_enum() { let p = pre("p"); match choice("v", 2) { 0 => reads(&cat!("<", p, ":ev xmlns:", p, "=\"ab\"><", p, ":I>v</", p, ":I></", p, ":ev>"), &E::I("v".into())), _ => { assume(p != "Q"); reads(&cat!("<", p, ":ev xmlns:", p, "=\"ab\" xmlns:Q=\"cd\"><Q:P><a>v</a></Q:P></", p, ":ev>"), &E::P(Plain { a: "v".into() })) } } }
  fn q_prefix_nested() { let p = pre("p"); let q = pre("q"); assume(p != q); reads(&cat!("<", p, ":Outer xmlns:", p, "=\"ab\" xmlns:", q, "=\"cd\"><", p, ":i><", p, ":a>1</", p, ":a></", p, ":i><", q, ":j><", p, ":a>2</", p, ":a></", q, ":j><", q, ":k><a>3</a></", q, ":k></", p, ":Outer>"),
    &Outer { i: Inner { a: "1".into() }, j: vec![Inner { a: "2".into() }], k: Some(Plain { a: "3".into() }) }) }
  // ---- every URI
  fn q_uri_root() { let u = uri("u"); let d = cat!("<p:R xmlns:p=\"", u, "\" xmlns:n=\"ab\"><n:a>1</n:a></p:R>"); observe(d.as_bytes()); match de::<Rt>(&d) { Ok(v) => { check!(u == "ab", "a root in a wrong namespace was accepted"); check!(v.a == "1", "value read differs") } Err(_) => check!(u != "ab", "a root in the configured namespace was refused") } cover(0) }
  fn q_uri_root_default() { let u = uri("u"); let d = cat!("<rt xmlns=\"", u, "\" xmlns:n=\"ab\"><n:a>1</n:a></rt>"); match de::<Df>(&d) { Ok(_) => check!(u == "ab", "a root in a wrong namespace was accepted"), Err(_) => check!(u != "ab", "a root in the configured namespace was refused") } cover(0) }
  fn q_uri_root_enum() { let u = uri("u"); let d = cat!("<p:ev xmlns:p=\"", u, "\" xmlns:n=\"ab\"><n:I>1</n:I></p:ev>"); match de::<E>(&d) { Ok(v) => { check!(u == "ab", "a root in a wrong namespace was accepted"); check!(v == E::I("1".into()), "value read differs") } Err(_) => check!(u != "ab", "a root in the configured namespace was refused") } cover(0) }
  fn q_uri_child() { let u = uri("u"); let d = cat!("<n:R xmlns:n=\"ab\" xmlns:p=\"", u, "\"><p:a>1</p:a></n:R>"); observe(d.as_bytes()); match de::<Rt>(&d) { Ok(v) => { check!(u == "ab", "an element of another namespace was taken for the configured one"); check!(v.a == "1", "value read differs") } Err(_) => check!(u != "ab", "an element in the configured namespace was not recognised") } cover(0) }
  fn q_uri_opt() { let u = uri("u"); let d = cat!("<n:R xmlns:n=\"ab\" xmlns:p=\"", u, "\"><n:a>0</n:a><p:b>1</p:b><p:v>2</p:v><p:c>3</p:c></n:R>"); let v = must::<Rt>(&d); let cd = u == "cd"; check!(v.b.is_some() == cd && v.v.len() == cd as usize, "recognised by name although the namespace differs, or the reverse"); check!(v.c.is_none(), "an element in a namespace was taken for one without"); check!(v.a == "0", "value read differs"); cover(0) }
  fn q_uri_default() { let u = uri("u"); let d = cat!("<n:rt xmlns:n=\"ab\" xmlns=\"", u, "\"><a>1</a><b>2</b></n:rt>"); match de::<Df>(&d) { Ok(v) => check!(u == "ab" && v.a == "1" && v.b.is_none(), "an element of another namespace was taken for the configured one"), Err(_) => check!(u != "ab", "an element in the configured namespace was not recognised") } cover(0) }
  fn q_uri_struct() { let u = uri("u"); let d = cat!("<n:Outer xmlns:n=\"ab\" xmlns:p=\"", u, "\"><n:i><p:a>1</p:a></n:i></n:Outer>"); match de::<Outer>(&d) { Ok(v) => { check!(u == "ab", "an element of another namespace was taken for the configured one"); check!(v.i.a == "1", "value read differs") } Err(_) => check!(u != "ab", "an element in the configured namespace was not recognised") } cover(0) }
  fn q_uri_struct2() { let u = uri("u"); let d = cat!("<n:Outer xmlns:n=\"ab\" xmlns:p=\"", u, "\"><n:i><n:a>1</n:a></n:i><p:j><n:a>2</n:a></p:j><p:k><a>3</a></p:k></n:Outer>"); let v = must::<Outer>(&d); let cd = u == "cd"; check!(v.j.len() == cd as usize && v.k.is_some() == cd, "recognised by name although the namespace differs, or the reverse"); cover(0) }
  fn q_uri_none() { let u = uri("u"); let d = cat!("<Free xmlns:p=\"", u, "\"><p:a>1</p:a><p:b>2</p:b></Free>"); let v = must::<Free>(&d); check!(v.a.is_some() == (u == "ab"), "recognised by name although the namespace differs, or the reverse"); check!(v.b.is_none(), "an element in a namespace was taken for one without"); cover(0) }
  fn q_unprefixed() { reads("<Free><a>1</a><b>2</b></Free>", &Free { a: None, b: st("2") }) }
  fn q_same() { let f = flag("first"); let x = "<n:a>1</n:a>"; let y = "<a>2</a>"; reads(&cat!("<n:s xmlns:n=\"ab\">", if f { x } else { y }, if f { y } else { x }, "</n:s>"), &Same { x: st("1"), y: st("2") }) }
  fn q_rt() { match choice("t", 6) { 0 => rt(Rt { a: val(), b: opt("b", || val()), c: opt("c", || 9), v: list("v", 2, || "x".to_string()) }), 1 => rt(Df { a: val(), b: opt("b", || val()) }), 2 => rt(Outer { i: Inner { a: val() }, j: list("j", 2, || Inner { a: "j".into() }), k: opt("k", || Plain { a: val() }) }), 3 => rt(Attr { x: any::<1>("x"), y: opt("y", || any::<1>("yv")), z: st("z") }), 4 => rt(Same { x: opt("x", val), y: opt("y", val) }), _ => rt(match choice("e", 2) { 0 => E::I(val()), _ => E::P(Plain { a: val() }) }) } }
  fn q_case() { let c = byte("c"); assume(c.is_ascii_alphabetic()); let u = String::from_utf8(vec![c, b'b']).unwrap(); let d = cat!("<n:R xmlns:n=\"ab\" xmlns:p=\"", u, "\"><p:a>1</p:a></n:R>"); check!(de::<Rt>(&d).is_ok() == (u == "ab"), "namespace comparison"); cover(0) }
  fn q_uri_len() { let u = pick("u", &["a", "abc", "abab", "ab/", "", "AB"]); if !u.is_empty() { check!(de::<Rt>(&cat!("<p:R xmlns:p=\"", u, "\" xmlns:n=\"ab\"><n:a>1</n:a></p:R>")).is_err(), "a root in a wrong namespace was accepted"); check!(de::<Rt>(&cat!("<n:R xmlns:n=\"ab\" xmlns:p=\"", u, "\"><p:a>1</p:a></n:R>")).is_err(), "an element of another namespace was taken for the configured one"); } cover(0) }
  // ---- URIs that look much like the configured one
  fn q_near_root() { let u = near(); let l = pick("l", &["U", "ue"]); let d = cat!("<p:", l, " xmlns:p=\"", u, "\" xmlns:n=\"", UU, "\"><n:I>1</n:I></p:", l, ">"); observe(d.as_bytes()); let ok = if l == "U" { de::<U>(&d).is_ok() } else { de::<UE>(&d).is_ok() }; check!(ok == (u == UU), "a root in a wrong namespace was accepted, or one in the right namespace refused"); cover(0) }
  fn q_near_child() { let u = near(); let at = choice("at", 6); let on = u == UU; let open = cat!("<n:U xmlns:n=\"", UU, "\" xmlns:p=\"", u, "\"><n:I>1</n:I>"); let d = cat!(open, match at { 0 => "<p:o>2</p:o>", 1 => "<p:v>2</p:v>", 2 => "<p:s><n:o>2</n:o></p:s>", 3 => "<n:s><p:o>2</p:o></n:s>", 4 => "<p:e>B</p:e>", _ => "<p:I>5</p:I>" }, "</n:U>");
    let v = must::<U>(&d); check!(v.i == if at == 5 && on { 5 } else { 1 }, "value read differs"); check!(v.o.is_some() == (at == 0 && on), "recognised by name although the namespace differs, or the reverse"); check!(v.v.len() == (at == 1 && on) as usize, "recognised by name although the namespace differs, or the reverse"); check!(v.s.is_some() == (at == 3 || at == 2 && on), "recognised by name although the namespace differs, or the reverse"); if let Some(s) = &v.s { check!(s.o.is_some() == on, "recognised by name although the namespace differs, or the reverse") } check!(v.e == if at == 4 && on { UE::B } else { UE::A }, "recognised by name although the namespace differs, or the reverse"); cover(0) }
  fn q_near_w() { let o = opt("o", || below("ov", 10)); let s = opt("s", || Us { o: None }); let mut e = cat!("<n:U xmlns:n=\"", UU, "\"><n:I>3</n:I>"); if let Some(o) = o { e.push_str("<n:o>"); e.push((b'0' + o) as char); e.push_str("</n:o>") } let out = ser(&U { i: 3, o, v: vec![], s, e: UE::A }); check!(out.starts_with(&doc(&e)), "output is not the prescribed document"); cover(0) }
  fn k_variant_ns() { let d = "<n:ev xmlns:n=\"ab\" xmlns:p=\"zz\"><p:I>1</p:I></n:ev>"; check!(de::<E>(d) != Ok(E::I("1".into())), "a variant element of another namespace was taken for the configured one"); cover(0) }
  fn k_attr_ns() { let d = "<Attr xmlns:n=\"ab\" xmlns:p=\"zz\" n:x=\"1\" p:z=\"2\" />"; check!(must::<Attr>(d).z.is_none(), "an attribute of another namespace was taken for the configured one"); cover(0) }
  fn q_parts() { match choice("m", 6) { 0 => m00(), 1 => m01(), 2 => m10(), 3 => m11(), 4 => m1n(), _ => m1m() } }
  fn q_parts_uri() { // every binding of the prefixes of a host and its parts
    let u = |n: &str| pick(n, &["hh", "mm", "c"]); let (a, b, c) = (u("a"), u("b"), u("c")); let h = |u: &str| u == "hh"; let m = |u: &str| u == "mm";
    let d = cat!("<r:H xmlns:r=\"hh\" xmlns:p=\"", a, "\" xmlns:q=\"", b, "\"><r:s><q:x>1</q:x><q:o>2</q:o><x>7</x></r:s><p:p><q:x>2</q:x></p:p><r:q xmlns:q=\"", c, "\"><q:x>3</q:x><q:v>4</q:v></r:q><r:e><q:U/>U</r:e></r:H>"); observe(d.as_bytes());
    let p = |x| P1 { x, o: None, v: vec![], k: None };
    match de::<H11>(&d) { Ok(v) => { check!(m(b) && m(c), "an element of another namespace was taken for a required one"); check!(v.s == P1 { o: Some(2), ..p(1) } && v.p == if h(a) { Some(p(2)) } else { None } && v.q == vec![P1 { v: vec![4], ..p(3) }] && v.e == E1::U, "recognised by name although the namespace differs, or the reverse") } Err(_) => check!(!m(b) || !m(c), "a document in the right namespaces was refused") }
    cover(0)
  }
  fn q_parts_flat_uri() {
    let u = |n: &str| pick(n, &["hh", "mm", "c"]); let (a, b) = (u("a"), u("b"));
    let d = cat!("<r:H xmlns:r=\"hh\" xmlns:p=\"", a, "\" xmlns:q=\"", b, "\"><p:x>1</p:x><q:x>2</q:x><p:z>3</p:z><q:v>4</q:v><p:v>5</p:v><v>6</v><w>7</w><p:w>8</p:w></r:H>"); observe(d.as_bytes());
    let (ma, mb) = (a == "mm", b == "mm"); let mut v = vec![]; if mb { v.push(4) } if ma { v.push(5) }
    let s = if ma || mb { Some(P1 { x: if mb { 2 } else { 1 }, o: None, v, k: None }) } else { None };
    let z = if a == "hh" { Some(3) } else { None };
    match de::<O11>(&d) { Ok(g) => check!(g == O11 { z, s: s.clone(), w: Some(7) }, "recognised by name although the namespace differs, or the reverse"), Err(_) => violation("a document in the right namespaces was refused") }
    match (de::<L11>(&d), s) { (Ok(g), Some(s)) => check!(g == L11 { z, s, w: Some(7) }, "recognised by name although the namespace differs, or the reverse"), (Err(_), None) => {} _ => violation("an element of another namespace was taken for a required one, or the reverse") }
    cover(0)
  }
  fn q_unit_prefix() { match choice("v", 3) { 0 => rt(E::A), 1 => rt(EN::A), _ => rt(EN::B) } }
}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
enum EN { #[default] #[yaserde(prefix = "n")] A, #[yaserde(prefix = "n")] B }
const UU: &str = "http://ab.cd/e/F";
/// a URI one edit away from the configured one, or that one
fn near() -> String {
  let c = vis::<1>("c"); let b = c.as_bytes()[0]; assume(b != b'<' && b != b'&' && b != b'"' && b != b'\'' && b != b'>'); let n = UU.len(); let at = choice("at_uri", n as u8 + 1) as usize;
  match choice("edit", 4) { 0 => cat!(UU[..at], c, UU[at..]), 1 => if at == n { UU.into() } else { cat!(UU[..at], c, UU[at + 1..]) }, 2 => if at == n { UU.into() } else { cat!(UU[..at], UU[at + 1..]) }, _ => if at == 0 { cat!(UU, UU) } else { cat!(UU[..at], if flag("tail") { c.as_str() } else { "" }) } }
}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "http://ab.cd/e/F" })]
struct U { #[yaserde(prefix = "n", rename = "I")] i: u8, #[yaserde(prefix = "n")] o: Option<u8>, #[yaserde(prefix = "n")] v: Vec<String>, #[yaserde(prefix = "n")] s: Option<Us>, #[yaserde(prefix = "n", default = "ua")] e: UE }
fn ua() -> UE { UE::A }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "http://ab.cd/e/F" })]
struct Us { #[yaserde(prefix = "n")] o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(rename = "ue", prefix = "n", namespaces = { "n" = "http://ab.cd/e/F" })]
enum UE { #[default] #[yaserde(prefix = "n")] A, #[yaserde(prefix = "n")] B, #[yaserde(prefix = "n")] I(String) }
// ---- parts of one namespace in hosts of another
macro_rules! host { ($n:ident $l:ident $o:ident $g:ident $v:ident, $p:ident $e:ident $f:ident, [$($a:tt)*] [$($fp:tt)*]) => {
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] #[yaserde($($a)*)]
  struct $n { #[yaserde(rename = "s" $($fp)*)] s: $p, #[yaserde(rename = "p" $($fp)*)] p: Option<$p>, #[yaserde(rename = "q" $($fp)*)] q: Vec<$p>, #[yaserde(rename = "e" $($fp)*)] e: $e, #[yaserde(rename = "f" $($fp)*)] f: Option<$e>, #[yaserde(rename = "g" $($fp)*)] g: Vec<$e> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] #[yaserde($($a)*)]
  struct $l { #[yaserde(rename = "z" $($fp)*)] z: Option<u8>, #[yaserde(flatten = true)] s: $p, w: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] #[yaserde($($a)*)]
  struct $o { #[yaserde(rename = "z" $($fp)*)] z: Option<u8>, #[yaserde(flatten = true)] s: Option<$p>, w: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] #[yaserde($($a)*)]
  struct $g { #[yaserde(rename = "z" $($fp)*)] z: Option<u8>, #[yaserde(flatten = true)] s: $f, w: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)] #[yaserde($($a)*)]
  enum $v { #[default] Q, #[yaserde(rename = "S" $($fp)*)] S($p), #[yaserde(rename = "E" $($fp)*)] E($e), #[yaserde(rename = "L" $($fp)*)] L(Vec<$p>), #[yaserde(rename = "O" $($fp)*)] O(Option<$p>) }
} }
macro_rules! part { ($p:ident $e:ident $f:ident, [$($a:tt)*] [$($fp:tt)*]) => {
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)] #[yaserde(rename = "part" $($a)*)]
  struct $p { #[yaserde(rename = "x" $($fp)*)] x: u8, #[yaserde(rename = "o" $($fp)*)] o: Option<u8>, #[yaserde(rename = "v" $($fp)*)] v: Vec<u8>, #[yaserde(attribute = true)] k: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone, Default)] #[yaserde(rename = "en" $($a)*)]
  enum $e { #[default] U, #[yaserde(rename = "A" $($fp)*)] A(u8), #[yaserde(rename = "B" $($fp)*)] B($p), #[yaserde(rename = "C" $($fp)*)] C(Vec<u8>) }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone, Default)] #[yaserde(flatten = true, rename = "fe" $($a)*)]
  enum $f { #[default] U, #[yaserde(rename = "A" $($fp)*)] A(u8), #[yaserde(rename = "B" $($fp)*)] B($p) }
} }
part!(P0 E0 F0, [] []);
part!(P1 E1 F1, [, prefix = "m", namespaces = { "m" = "mm" }] [, prefix = "m"]);
host!(H00 L00 O00 G00 V00, P0 E0 F0, [rename = "H"] []);
host!(H01 L01 O01 G01 V01, P1 E1 F1, [rename = "H"] []);
host!(H10 L10 O10 G10 V10, P0 E0 F0, [rename = "H", prefix = "h", namespaces = { "h" = "hh" }] [, prefix = "h"]);
host!(H11 L11 O11 G11 V11, P1 E1 F1, [rename = "H", prefix = "h", namespaces = { "h" = "hh" }] [, prefix = "h"]);
host!(H1n L1n O1n G1n V1n, P1 E1 F1, [rename = "H", prefix = "h", namespaces = { "h" = "hh", "m" = "mm" }] []);
host!(H1m L1m O1m G1m V1m, P1 E1 F1, [rename = "H", prefix = "h", namespaces = { "h" = "hh", "m" = "mm" }] [, prefix = "m"]);
/// How a host and a part are written: prefix of the host's element, of its fields, of the part's, declarations on the root, declaration on a part that the root doesn't make.
struct Style { r: &'static str, f: &'static str, p: &'static str, d: &'static str, dp: &'static str }
const NO: &str = ""; const DH: &str = " xmlns:h=\"hh\""; const DM: &str = " xmlns:m=\"mm\""; const DHM: &str = " xmlns:h=\"hh\" xmlns:m=\"mm\"";
impl Style {
  fn tag(&self, pre: &str, n: &str, at: &str, c: &str) -> String { if c.is_empty() { cat!("<", pre, n, at, " />") } else { cat!("<", pre, n, at, ">", c, "</", pre, n, ">") } }
  fn root(&self, c: &str) -> String { self.tag(self.r, "H", self.d, c) }
  /// a root that has flattened parts, which are declared there
  fn flat(&self, at: &str, c: &str) -> String { let d = if self.dp.is_empty() { self.d } else if self.d.is_empty() { DM } else { DHM }; self.tag(self.r, "H", &cat!(d, at), c) }
  fn field(&self, n: &str, at: &str, c: &str) -> String { self.tag(self.f, n, &cat!(self.dp, at), c) }
  fn leaf(&self, n: &str, v: u8) -> String { self.tag(self.p, n, "", &v.to_string()) }
}
macro_rules! matrix { ($w:ident, $n:ident $l:ident $o:ident $g:ident $v:ident, $p:ident $e:ident $f:ident, $s:expr) => {
  fn $w() {
    let s = $s; let (t, z) = (digit("t").1, flag("z"));
    let part = |n: &str| { let p = $p { x: t, o: if flag(n) { Some(2) } else { None }, v: if flag(n) { vec![3, t] } else { vec![] }, k: if flag(n) { Some(5) } else { None } }; let mut b = s.leaf("x", p.x); if let Some(v) = p.o { b += &s.leaf("o", v) } for v in &p.v { b += &s.leaf("v", *v) } let a = if p.k.is_some() { " k=\"5\"" } else { "" }; (p, b, a) };
    let en = |n: &str| match choice(n, 4) { 0 => ($e::U, String::from("U")), 1 => ($e::A(t), s.leaf("A", t)), 2 => { let (p, b, a) = part(n); ($e::B(p), s.tag(s.p, "B", a, &b)) } _ => ($e::C(vec![6, t]), cat!(s.leaf("C", 6), s.leaf("C", t))) };
    let (zv, zx) = if z { (Some(t), s.tag(s.f, "z", "", &t.to_string())) } else { (None, String::new()) };
    match choice("kind", 7) {
      0 => { let (p, b, a) = part("s"); let (e, eb) = en("e"); both(&$n { s: p, p: None, q: vec![], e, f: None, g: vec![] }, &s.root(&cat!(s.field("s", a, &b), s.field("e", "", &eb)))) }
      1 => { let (p, b, a) = part("s"); let (e, eb) = en("e"); let base = || $p { x: 1, o: None, v: vec![], k: None }; let bx = s.leaf("x", 1); both(&$n { s: base(), p: Some(p), q: vec![base(), base()], e: $e::U, f: Some(e), g: vec![$e::A(2), $e::U] }, &s.root(&cat!(s.field("s", "", &bx), s.field("p", a, &b), s.field("q", "", &bx), s.field("q", "", &bx), s.field("e", "", "U"), s.field("f", "", &eb), s.field("g", "", &s.leaf("A", 2)), s.field("g", "", "U")))) }
      2 => { let (p, b, a) = part("s"); both(&$l { z: zv, s: p, w: Some(9) }, &s.flat(a, &cat!(zx, b, "<w>9</w>"))) }
      3 => { let (p, b, a) = part("s"); both(&$o { z: zv, s: Some(p), w: Some(9) }, &s.flat(a, &cat!(zx, b, "<w>9</w>"))) }
      4 => both(&$o { z: zv, s: None, w: Some(9) }, &s.root(&cat!(zx, "<w>9</w>"))),
      5 => { let (e, b) = match choice("fe", 3) { 0 => ($f::U, String::from("U")), 1 => ($f::A(t), s.leaf("A", t)), _ => { let (p, b, a) = part("p"); ($f::B(p), s.tag(s.p, "B", a, &b)) } }; both(&$g { z: zv, s: e, w: Some(9) }, &s.flat("", &cat!(zx, b, "<w>9</w>"))) }
      _ => { let (p, b, a) = part("s"); let (v, c) = match choice("v", 5) { 0 => ($v::Q, String::from("Q")), 1 => ($v::S(p), s.field("S", a, &b)), 2 => { let (e, eb) = en("e"); ($v::E(e), s.field("E", "", &eb)) } 3 => ($v::L(vec![p.clone(), p]), cat!(s.field("L", a, &b), s.field("L", a, &b))), _ => ($v::O(Some(p)), s.field("O", a, &b)) }; both(&v, &s.root(&c)) }
    }
  }
} }
fn both<T: YaSerialize + YaDeserialize + PartialEq>(v: &T, x: &str) { let s = ser(v); observe(s.as_bytes()); check!(s == doc(x), "names or declarations differ from the configured ones"); match de::<T>(&s) { Ok(w) => check!(w == *v, "value read differs"), Err(_) => violation("what was written is refused") } cover(0) }
matrix!(m00, H00 L00 O00 G00 V00, P0 E0 F0, Style { r: "", f: "", p: "", d: NO, dp: NO });
matrix!(m01, H01 L01 O01 G01 V01, P1 E1 F1, Style { r: "", f: "", p: "m:", d: NO, dp: DM });
matrix!(m10, H10 L10 O10 G10 V10, P0 E0 F0, Style { r: "h:", f: "h:", p: "", d: DH, dp: NO });
matrix!(m11, H11 L11 O11 G11 V11, P1 E1 F1, Style { r: "h:", f: "h:", p: "m:", d: DH, dp: DM });
matrix!(m1n, H1n L1n O1n G1n V1n, P1 E1 F1, Style { r: "h:", f: "", p: "m:", d: DHM, dp: NO });
matrix!(m1m, H1m L1m O1m G1m V1m, P1 E1 F1, Style { r: "h:", f: "m:", p: "m:", d: DHM, dp: NO });
