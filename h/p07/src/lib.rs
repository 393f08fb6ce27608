use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nums { a: i8, b: u8, c: i16, d: u16, e: i32, f: u32, g: i64, h: u64 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Flt { a: f32, b: f64, c: bool }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct St { s: String, #[yaserde(rename = "t-x")] t: Option<String>, v: Vec<String>, z: bool }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct At { #[yaserde(attribute = true)] s: String, #[yaserde(attribute = true, rename = "b-c")] t: Option<String>, #[yaserde(attribute = true)] n: i32, #[yaserde(attribute = true)] o: Option<u8>, #[yaserde(attribute = true)] b: bool, c: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct An { #[yaserde(attribute = true)] a: u64, #[yaserde(attribute = true)] b: i64, #[yaserde(attribute = true)] c: i8, #[yaserde(attribute = true)] d: Option<u32>, #[yaserde(attribute = true)] e: f64, #[yaserde(attribute = true)] f: Option<f32>, #[yaserde(attribute = true)] g: u16, #[yaserde(attribute = true)] h: i16, #[yaserde(attribute = true)] i: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tx { #[yaserde(attribute = true)] id: String, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct To { #[yaserde(text = true)] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String, d: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct In { #[yaserde(attribute = true)] k: String, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "the-doc")]
struct Doc { first: In, #[yaserde(rename = "Second")] o: Option<In>, list: Vec<In>, #[yaserde(attribute = true)] late: Option<String>, last: String, tx: Vec<Tx> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Deep { d: Option<Box1>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Box1 { d: Vec<Leaf>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hb { u: Un, o: Option<Un>, v: Vec<Un>, p: Pr, #[yaserde(attribute = true)] a: Un, #[yaserde(attribute = true)] b: Option<Un>, t: Tg, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, B, #[yaserde(rename = "c-d")] C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(rename = "pr-x")]
enum Pr { #[default] U, I(i32), S(String), #[yaserde(rename = "bo")] Bo(bool), L(In), #[yaserde(rename = "te-x")] T(Tx), O(Option<String>), V(Vec<String>), W(Vec<Leaf>), G(f64), E(Un) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, #[yaserde(rename = "b-b")] B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hp { p: Pr, o: Option<Pr>, v: Vec<Pr>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { a: String, #[yaserde(flatten = true)] f: Fa, z: String, #[yaserde(flatten = true)] o: Option<Fb>, #[yaserde(attribute = true)] k: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fa { x: String, #[yaserde(attribute = true)] xa: String, y: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fb { w: String, #[yaserde(attribute = true)] wa: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fe { a: String, #[yaserde(flatten = true)] e: Pr, z: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Gen<T: YaSerialize + YaDeserialize + PartialEq> { g: T, o: Option<T>, v: Vec<T> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Raw { r#type: String, #[yaserde(attribute = true)] r#fn: Option<String>, _u: String, camelCase: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Emp { }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct HasEmp { e: Emp, o: Option<Emp>, v: Vec<Emp> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Wr { #[default] N, A(In), B(Leaf) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: String, #[yaserde(prefix = "n")] l: Vec<NsIn>, #[yaserde(attribute = true, prefix = "n")] a: String, e: NsE }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n")] s: Option<String>, t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
enum NsE { #[default] U, #[yaserde(prefix = "n")] S(String) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(default_namespace = "n", prefix = "n", namespaces = { "n" = "ab", "o" = "cd" })]
struct Dn { #[yaserde(prefix = "n")] s: String, #[yaserde(prefix = "o")] t: String, u: String }
fn e1(n: &str, v: &str) -> String { el(n, &esc(v)) }
fn tf(b: bool) -> &'static str { if b { "true" } else { "false" } }
fn at(n: &str, v: &str) -> String { cat!(" ", n, "=\"", esca(v), "\"") }
/// an element with attributes and content; without content it is written as an empty tag
fn ea(n: &str, at: &str, c: &str) -> String { if c.is_empty() { cat!("<", n, at, " />") } else { cat!("<", n, at, ">", c, "</", n, ">") } }
fn x_in(n: &str, v: &In) -> String { ea(n, &at("k", &v.k), &e1("s", &v.s)) }
fn x_tx(n: &str, v: &Tx) -> String { cat!("<", n, at("id", &v.id), ">", esc(&v.t), "</", n, ">") }
fn x_un(v: &Un) -> &'static str { match v { Un::A => "A", Un::B => "B", Un::C => "c-d" } }
fn x_pr(v: &Pr) -> String { match v { Pr::U => "U".into(), Pr::I(i) => el("I", &dec(*i as i128)), Pr::S(s) => e1("S", s), Pr::Bo(b) => el("bo", tf(*b)), Pr::L(l) => x_in("L", l), Pr::T(t) => x_tx("te-x", t), Pr::O(o) => o.as_ref().map_or(String::new(), |s| e1("O", s)), Pr::V(v) => v.iter().map(|s| e1("V", s)).collect(), Pr::W(v) => v.iter().map(|l| ea("W", "", &e1("s", &l.s))).collect(), Pr::G(f) => el("G", &f.to_string()), Pr::E(u) => el("E", x_un(u)) } }
fn un(n: &str) -> Un { match choice(n, 3) { 0 => Un::A, 1 => Un::B, _ => Un::C } }
fn tx(n: u8) -> String { match n { 0 => any::<1>("c"), 1 => uni("c", 2 + choice("ul", 3)), _ => vis::<2>("cc") } }
fn st() -> String { upto::<1>("s") }
fn fi(s: &str) -> In { In { k: "k\"".into(), s: s.into() } }
fn pr(k: u8) -> Pr { match k { 0 => Pr::U, 1 => Pr::I(i32_("i")), 2 => Pr::S(vis::<2>("ss")), 3 => Pr::Bo(bool_("b")), 4 => Pr::L(In { k: any::<1>("k"), s: st() }), 5 => Pr::T(Tx { id: any::<1>("id"), t: any::<1>("t") }), 6 => Pr::O(opt("o", st)), 7 => Pr::V(list("v", 3, || "<".to_string())), 8 => Pr::W(list("v", 3, || Leaf { s: "&".into() })), 9 => Pr::G(f64_("f")), _ => Pr::E(un("u")) } }
#[derive(YaSerialize, PartialEq, Debug)]
enum Sv { V { o: Option<String>, p: Option<In>, v: Vec<u8>, w: Vec<In>, u: Un, #[yaserde(rename = "x-x")] x: Vec<String>, s: String, f: f64, q: In, n: Option<i16> }, W { b: bool }, N {} }
#[derive(YaSerialize, PartialEq, Debug)]
struct Sh { a: usize, b: Option<isize>, e: Sv, c: char, v: Vec<char>, f: Option<Sv>, l: Vec<Sv>, g: String }
#[derive(YaSerialize, PartialEq, Debug)]
struct Vo { v: Vec<Option<u8>>, #[yaserde(rename = "w-w")] w: Vec<Option<In>>, o: Option<Vec<String>>, s: Vec<Option<String>>, n: Vec<Option<Un>>, z: u8 }
#[derive(YaSerialize, PartialEq, Debug)]
struct La { #[yaserde(attribute = true)] a: Vec<u8>, #[yaserde(attribute = true, rename = "b-b")] b: Vec<String>, #[yaserde(attribute = true)] c: Vec<Un>, #[yaserde(attribute = true)] d: Vec<bool>, e: Option<u8> }
fn sv(k: u8) -> (Sv, String) { match k { 0 => (Sv::N {}, "".into()), 1 => { let b = bool_("b"); (Sv::W { b }, el("b", tf(b))) } _ => {
  let o = opt("o", st); let p = opt("p", || fi("p")); let n = choice("n", 3); let s = vis::<1>("ss"); let u = un("u"); let i = opt("i", || -3i16);
  let x = cat!(o.as_ref().map_or(String::new(), |o| e1("o", o)), p.as_ref().map_or(String::new(), |p| x_in("p", p)), (0..n).map(|i| el("v", &dec(i as i128))).collect::<String>(), (0..n).map(|_| x_in("w", &fi("<"))).collect::<String>(), el("u", x_un(&u)), (0..n).map(|_| e1("x-x", &s)).collect::<String>(), e1("s", &s), el("f", "1.5"), x_in("q", &fi(&s)), i.map_or(String::new(), |i| el("n", &dec(i as i128))));
  (Sv::V { o, p, v: (0..n).collect(), w: (0..n).map(|_| fi("<")).collect(), u, x: (0..n).map(|_| s.clone()).collect(), s: s.clone(), f: 1.5, q: fi(&s), n: i }, x) } } }
harnesses! {
  fn q_cdata_marks() { let c = vis::<1>("c"); let p = |n: &str| pick(n, &["]]>", "]", ">", "<![CDATA[", "a"]); let t = cat!(p("1"), p("2"), c, p("3"), p("4")); writes(&Cd { c: t.clone(), d: t.clone() }, &doc(&cat!("<Cd><c><![CDATA[", t.replace("]]>", "]]]]><![CDATA[>"), "]]></c>", el("d", &esc(&t)), "</Cd>"))) }
  fn q_words() { let w = word("w"); let e = esc(&w); let c = vis::<1>("c"); match choice("at", 7) {
    0 => writes(&St { s: w.clone(), t: Some(w.clone()), v: vec![c.clone(), w], z: true }, &doc(&cat!("<St>", el("s", &e), el("t-x", &e), el("v", &esc(&c)), el("v", &e), "<z>true</z></St>"))),
    1 => writes(&Tx { id: w.clone(), t: w.clone() }, &doc(&cat!("<Tx id=\"", esca(&w), "\">", e, "</Tx>"))),
    2 => writes(&In { k: w.clone(), s: c.clone() }, &doc(&cat!("<In k=\"", esca(&w), "\">", el("s", &esc(&c)), "</In>"))),
    3 => writes(&Cd { c: w.clone(), d: w.clone() }, &doc(&cat!("<Cd><c><![CDATA[", w.replace("]]>", "]]]]><![CDATA[>"), "]]></c>", el("d", &e), "</Cd>"))),
    4 => writes(&Pr::S(w.clone()), &doc(&cat!("<pr-x>", el("S", &e), "</pr-x>"))),
    5 => writes(&Deep { d: Some(Box1 { d: vec![Leaf { s: w.clone() }], s: c.clone() }), s: w.clone() }, &doc(&cat!("<Deep><d><d>", el("s", &e), "</d>", el("s", &esc(&c)), "</d>", el("s", &e), "</Deep>"))),
    _ => writes(&Ns { s: w.clone(), l: vec![], a: w.clone(), e: NsE::S(c.clone()) }, &doc(&cat!("<n:Ns xmlns:n=\"ab\" n:a=\"", esca(&w), "\">", el("n:s", &e), "<e>", el("n:S", &esc(&c)), "</e></n:Ns>"))) } }
  fn q_numbers() { let n = number("n"); let d = |v: i128| dec(v); writes(&Nums { a: n as i8, b: n as u8, c: n as i16, d: n as u16, e: n as i32, f: n as u32, g: n as i64, h: n }, &doc(&cat!("<Nums>", el("a", &d(n as i8 as i128)), el("b", &d(n as u8 as i128)), el("c", &d(n as i16 as i128)), el("d", &d(n as u16 as i128)), el("e", &d(n as i32 as i128)), el("f", &d(n as u32 as i128)), el("g", &d(n as i64 as i128)), el("h", &d(n as i128)), "</Nums>"))) }
  fn q_nums() { let k = choice("k", 8); let mut v = Nums { a: 1, b: 2, c: -3, d: 4, e: -5, f: 6, g: -7, h: 8 }; match k { 0 => v.a = byte("x") as i8, 1 => v.b = byte("x"), 2 => v.c = i16_("x"), 3 => v.d = u16_("x"), 4 => v.e = i32_("x"), 5 => v.f = u32_("x"), 6 => v.g = i64_("x"), _ => v.h = u64_("x") }
    let d = doc(&ea("Nums", "", &cat!(el("a", &dec(v.a as i128)), el("b", &dec(v.b as i128)), el("c", &dec(v.c as i128)), el("d", &dec(v.d as i128)), el("e", &dec(v.e as i128)), el("f", &dec(v.f as i128)), el("g", &dec(v.g as i128)), el("h", &dec(v.h as i128))))); writes(&v, &d) }
  fn q_flt() { let a = f32_("a"); let b = f64_("b"); let c = bool_("c"); writes(&Flt { a, b, c }, &doc(&ea("Flt", "", &cat!(el("a", &a.to_string()), el("b", &b.to_string()), el("c", tf(c)))))) }
  fn q_str() { let s = tx(choice("m", 3)); writes(&St { s: s.clone(), t: None, v: vec![], z: true }, &doc(&ea("St", "", &cat!(e1("s", &s), el("z", "true"))))) }
  fn q_str_opt() { let t = opt("t", || tx(choice("m", 3))); let d = doc(&ea("St", "", &cat!(el("s", ""), t.as_ref().map_or(String::new(), |t| e1("t-x", t)), el("z", "false")))); writes(&St { s: "".into(), t, v: vec![], z: false }, &d) }
  fn q_str_vec() { let n = choice("n", 4); let k = choice("k", n.max(1)); let v: Vec<String> = (0..n).map(|i| if i == k { tx(choice("m", 3)) } else { "]]>".into() }).collect(); let d = doc(&ea("St", "", &cat!(el("s", "s"), v.iter().map(|x| e1("v", x)).collect::<String>(), el("z", "true")))); writes(&St { s: "s".into(), t: None, v, z: true }, &d) }
  fn q_attr() { let s = tx(choice("m", 3)); let t = opt("t", || any::<1>("tv")); let o = opt("o", || byte("ov")); let b = bool_("b"); let c = opt("c", || "c".to_string()); let n = -4;
    let d = doc(&ea("At", &cat!(at("s", &s), t.as_ref().map_or(String::new(), |t| at("b-c", t)), at("n", "-4"), o.map_or(String::new(), |o| at("o", &dec(o as i128))), at("b", tf(b))), &c.as_ref().map_or(String::new(), |c| e1("c", c)))); writes(&At { s, t, n, o, b, c }, &d) }
  fn q_attr_num() { let k = choice("k", 9); let mut v = An { a: 1, b: -1, c: 2, d: None, e: 0.5, f: None, g: 3, h: -3, i: None }; match k { 0 => v.a = u64_("x"), 1 => v.b = i64_("x"), 2 => v.c = byte("x") as i8, 3 => v.d = Some(u32_("x")), 4 => v.e = f64_("x"), 5 => v.f = Some(f32_("x")), 6 => v.g = u16_("x"), 7 => v.h = i16_("x"), _ => v.i = Some(bool_("x")) }
    let d = doc(&cat!("<An", at("a", &dec(v.a as i128)), at("b", &dec(v.b as i128)), at("c", &dec(v.c as i128)), v.d.map_or(String::new(), |d| at("d", &dec(d as i128))), at("e", &v.e.to_string()), v.f.map_or(String::new(), |d| at("f", &d.to_string())), at("g", &dec(v.g as i128)), at("h", &dec(v.h as i128)), v.i.map_or(String::new(), |b| at("i", tf(b))), " />")); writes(&v, &d) }
  fn q_text() { let id = any::<1>("id"); let t = tx(choice("m", 3)); let v = Tx { id, t }; let d = doc(&x_tx("Tx", &v)); writes(&v, &d) }
  fn q_text_opt() { let t = opt("t", || any::<1>("c")); let d = doc(&match &t { Some(t) => el("To", &esc(t)), None => el("To", "") }); writes(&To { t }, &d) }
  fn q_cdata() { let c = vis::<3>("c"); assume(c != "]]>"); let d = vis::<1>("d"); let e = doc(&ea("Cd", "", &cat!("<c><![CDATA[", c, "]]></c>", e1("d", &d)))); writes(&Cd { c, d }, &e) }
  fn q_doc() { let f = In { k: any::<1>("k"), s: st() }; let o = opt("o", || fi("o")); let n = choice("n", 3); let list: Vec<In> = (0..n).map(|_| fi("<i>")).collect(); let late = opt("late", || any::<1>("l")); let txs: Vec<Tx> = (0..choice("m", 3)).map(|i| Tx { id: dec(i as i128), t: "&".into() }).collect();
    let d = doc(&ea("the-doc", &late.as_ref().map_or(String::new(), |l| at("late", l)), &cat!(x_in("first", &f), o.as_ref().map_or(String::new(), |o| x_in("Second", o)), list.iter().map(|i| x_in("list", i)).collect::<String>(), e1("last", "l"), txs.iter().map(|t| x_tx("tx", t)).collect::<String>())));
    writes(&Doc { first: f, o, list, late, last: "l".into(), tx: txs }, &d) }
  fn q_deep() { let s = st(); let d = opt("d", || Box1 { d: list("l", 3, || Leaf { s: s.clone() }), s: "b".into() }); let e = doc(&ea("Deep", "", &cat!(d.as_ref().map_or(String::new(), |b| ea("d", "", &cat!(b.d.iter().map(|l| ea("d", "", &e1("s", &l.s))).collect::<String>(), e1("s", "b")))), e1("s", "x")))); writes(&Deep { d, s: "x".into() }, &e) }
  fn q_enum_hold() { let u = un("u"); let o = opt("o", || un("ov")); let v = list("v", 2, || Un::C); let a = un("a"); let b = opt("b", || un("bv")); let t = if flag("t") { Tg::A } else { Tg::B }; let tn = match t { Tg::A => "A", Tg::B => "b-b" };
    let d = doc(&ea("Hb", &cat!(at("a", x_un(&a)), b.as_ref().map_or(String::new(), |b| at("b", x_un(b)))), &cat!(el("u", x_un(&u)), o.as_ref().map_or(String::new(), |o| el("o", x_un(o))), v.iter().map(|v| el("v", x_un(v))).collect::<String>(), el("p", &el("I", "7")), cat!("<t", at("kind", tn), " />"), el("s", "s"))));
    writes(&Hb { u, o, v, p: Pr::I(7), a, b, t, s: "s".into() }, &d) }
  fn q_enum_root() { let p = pr(choice("v", 11)); let x = x_pr(&p); let d = doc(&ea("pr-x", "", &x)); writes(&p, &d) }
  fn q_enum_field() { let p = pr(choice("v", 11)); let x = x_pr(&p); let d = doc(&ea("Hp", "", &cat!(ea("p", "", &x), ea("o", "", &el("S", "&lt;")), el("s", "s")))); writes(&Hp { p, o: Some(Pr::S("<".into())), v: vec![], s: "s".into() }, &d) }
  fn q_enum_list() { let n = choice("n", 3) + 1; let k = choice("k", n); let v: Vec<Pr> = (0..n).map(|i| if i == k { pr(choice("v", 11)) } else { Pr::Bo(true) }).collect(); let d = doc(&ea("Hp", "", &cat!(el("p", "U"), v.iter().map(|p| ea("v", "", &x_pr(p))).collect::<String>(), el("s", "s")))); writes(&Hp { p: Pr::U, o: None, v, s: "s".into() }, &d) }
  fn q_flat() { let x = st(); let xa = any::<1>("xa"); let o = opt("o", || Fb { w: "w".into(), wa: opt("wa", || any::<1>("wv")) }); let n = choice("n", 3);
    let d = doc(&ea("Fl", "@", &cat!(e1("a", "a"), e1("x", &x), (0..n).map(|i| el("y", &dec(i as i128))).collect::<String>(), e1("z", "z"), o.as_ref().map_or(String::new(), |o| e1("w", &o.w)))));
    // attributes: the struct's own and those of its flattened parts, in any order
    let wa = o.as_ref().and_then(|o| o.wa.clone()); let v = Fl { a: "a".into(), f: Fa { x, xa: xa.clone(), y: (0..n).collect() }, z: "z".into(), o, k: "kk".into() }; let out = ser(&v);
    let l = cat!(DECL, "<Fl"); check!(out.starts_with(&l[..]), "output is not the prescribed document"); let body = &d[d.find('@').unwrap() + 1..]; check!(out.ends_with(body), "output is not the prescribed document");
    let mid = &out[l.len()..out.len() - body.len()]; let (ks, xs, ws) = (at("k", "kk"), at("xa", &xa), wa.map_or(String::new(), |w| at("wa", &w)));
    let c = [[&ks, &xs, &ws], [&ks, &ws, &xs], [&xs, &ks, &ws], [&xs, &ws, &ks], [&ws, &ks, &xs], [&ws, &xs, &ks]]; check!(c.iter().any(|p| p.iter().map(|s| s.as_str()).collect::<String>() == mid), "attributes are not those prescribed"); cover(0) }
  fn q_flat_enum() { let e = pr(choice("v", 11)); let d = doc(&ea("Fe", "", &cat!(el("a", "a"), x_pr(&e), el("z", "z")))); writes(&Fe { a: "a".into(), e, z: "z".into() }, &d) }
  fn q_generic() { let s = st(); match choice("t", 3) { 0 => { let d = doc(&ea("Gen", "", &cat!(x_in("g", &fi(&s)), x_in("v", &fi("1")), x_in("v", &fi("2"))))); writes(&Gen::<In> { g: fi(&s), o: None, v: vec![fi("1"), fi("2")] }, &d) }
    1 => { let d = doc(&ea("Gen", "", &cat!(el("g", "A"), el("o", "c-d"), el("v", "B")))); writes(&Gen::<Un> { g: Un::A, o: Some(Un::C), v: vec![Un::B] }, &d) }
    _ => { let g = |u| Gen::<Un> { g: u, o: None, v: vec![] }; let d = doc(&ea("Gen", "", &cat!(ea("g", "", &el("g", "B")), ea("o", "", &el("g", "A")), ea("v", "", &el("g", "c-d"))))); writes(&Gen::<Gen<Un>> { g: g(Un::B), o: Some(g(Un::A)), v: vec![g(Un::C)] }, &d) } } }
  fn q_raw() { let f = opt("f", st); let d = doc(&ea("Raw", &f.as_ref().map_or(String::new(), |f| at("fn", f)), &cat!(el("type", "t"), el("_u", "u"), el("camelCase", "8")))); writes(&Raw { r#type: "t".into(), r#fn: f, _u: "u".into(), camelCase: 8 }, &d) }
  fn q_empty() { let o = opt("o", || Emp { }); let n = choice("n", 3); let d = doc(&ea("HasEmp", "", &cat!("<e />", if o.is_some() { "<o />" } else { "" }, (0..n).map(|_| "<v />").collect::<String>()))); writes(&HasEmp { e: Emp { }, o, v: (0..n).map(|_| Emp { }).collect() }, &d) }
  fn q_empty_root() { writes(&Emp { }, &doc("<Emp />")); writes(&Tg::B, &doc("<Tg kind=\"b-b\" />")) }
  fn q_ns() { let s = st(); let n = choice("n", 3); let e = if flag("e") { NsE::S("e".into()) } else { NsE::U }; let i = || NsIn { s: Some("i".into()), t: s.clone() };
    let ie = ea("n:l", "", &cat!(el("n:s", "i"), e1("t", &s))); let ee = match &e { NsE::S(_) => el("e", &el("n:S", "e")), _ => el("e", "U") };
    let d = doc(&ea("n:Ns", &cat!(" xmlns:n=\"ab\"", at("n:a", &s)), &cat!(e1("n:s", &s), (0..n).map(|_| ie.clone()).collect::<String>(), ee))); writes(&Ns { s: s.clone(), l: (0..n).map(|_| i()).collect(), a: s.clone(), e }, &d) }
  fn q_default_ns() { let s = st(); let d = doc(&ea("Dn", " xmlns=\"ab\" xmlns:o=\"cd\"", &cat!(e1("s", &s), e1("o:t", &s), e1("u", "u")))); writes(&Dn { s: s.clone(), t: s, u: "u".into() }, &d) }
  fn q_long() { let b = vis::<1>("b"); let n = pick("n", &[7usize, 31, 32, 33, 100, 129, 257]); let s: String = (0..n).map(|i| if i % 3 == 0 { b.as_str() } else { "y" }).collect(); match choice("w", 3) { 0 => { let d = doc(&ea("St", "", &cat!(e1("s", &s), el("z", "true")))); writes(&St { s, t: None, v: vec![], z: true }, &d) }
    1 => { let d = doc(&cat!("<To>", esc(&s), "</To>")); writes(&To { t: Some(s) }, &d) } _ => { let d = doc(&x_tx("Tx", &Tx { id: s.clone(), t: s.clone() })); writes(&Tx { id: s.clone(), t: s }, &d) } } }
  fn q_many() { let n = pick("n", &[7usize, 16, 33, 65]); let b = vis::<1>("b"); let v: Vec<String> = (0..n).map(|i| if i + 1 == n { b.clone() } else { "i".into() }).collect(); let d = doc(&ea("St", "", &cat!(el("s", "s"), v.iter().map(|x| e1("v", x)).collect::<String>(), el("z", "true")))); writes(&St { s: "s".into(), t: None, v, z: true }, &d) }
  fn t_str3() { let s = any::<3>("s"); writes(&To { t: Some(s.clone()) }, &doc(&el("To", &esc(&s)))) }
  fn t_attr3() { let s = any::<3>("s"); writes(&Tx { id: s.clone(), t: "t".into() }, &doc(&x_tx("Tx", &Tx { id: s.clone(), t: "t".into() }))) }
  fn t_cdata() { let c = vis::<4>("c"); assume(!c.contains("]]>")); let e = doc(&ea("Cd", "", &cat!("<c><![CDATA[", c, "]]></c><d>d</d>"))); writes(&Cd { c, d: "d".into() }, &e) }
  fn q_struct_variant() { let (v, x) = sv(choice("v", 3)); writes(&v, &doc(&ea("Sv", "", &x))) }
  fn q_struct_variant_held() { let m = choice("m", 4); let (e, x) = if m == 0 { sv(choice("e", 3)) } else { (Sv::N {}, String::new()) }; let k = if m == 3 { choice("w", 3) } else { 0 }; let c = if m == 2 { vis::<1>("c") } else { "q".to_string() }; let n = if m >= 2 { choice("vn", 3) } else { 1 }; let (a, b) = if m == 1 { (byte("a"), opt("bo", || byte("b"))) } else { (7, Some(8)) }; let t = |k| if k { Some(Sv::W { b: true }) } else { None };
    let d = doc(&ea("Sh", "", &cat!(el("a", &dec(a as i128)), b.map_or(String::new(), |b| el("b", &dec(-(b as i128)))), ea("e", "", &x), e1("c", &c), (0..n).map(|_| e1("v", &c)).collect::<String>(), if k == 1 { "<f><b>true</b></f>" } else { "" }, if k == 2 { "<l><b>false</b></l><l />" } else { "" }, el("g", "g"))));
    let ch = c.chars().next().unwrap(); writes(&Sh { a: a as usize, b: b.map(|b| -(b as isize)), e, c: ch, v: (0..n).map(|_| ch).collect(), f: t(k == 1), l: if k == 2 { vec![Sv::W { b: false }, Sv::N {}] } else { vec![] }, g: "g".into() }, &d) }
  fn q_option_items() { let n = choice("n", 4) as usize; let p: Vec<bool> = (0..n).map(|_| flag("p")).collect(); let b = byte("b"); let s = vis::<1>("s"); let k = choice("k", 5); fn l<T>(on: bool, p: &[bool], f: impl Fn() -> T) -> Vec<Option<T>> { if on { p.iter().map(|p| if *p { Some(f()) } else { None }).collect() } else { vec![] } }
    let r = |on: bool, x: &str| if on { p.iter().map(|p| if *p { x } else { "" }).collect::<String>() } else { String::new() };
    let d = doc(&ea("Vo", "", &cat!(r(k == 0, &el("v", &dec(b as i128))), r(k == 1, &x_in("w-w", &fi(&s))), if k == 2 { p.iter().map(|_| e1("o", &s)).collect::<String>() } else { String::new() }, r(k == 3, &e1("s", &s)), r(k == 4, &el("n", "c-d")), "<z>1</z>")));
    writes(&Vo { v: l(k == 0, &p, || b), w: l(k == 1, &p, || fi(&s)), o: if k == 2 { Some(p.iter().map(|_| s.clone()).collect()) } else { None }, s: l(k == 3, &p, || s.clone()), n: l(k == 4, &p, || Un::C), z: 1 }, &d) }
  fn q_list_attr() { let n = choice("n", 4) as usize; let k = choice("k", 4); let b = byte("b"); let s = vis::<1>("s"); let f = bool_("f"); let j = |x: &str| vec![x; n].join(" "); let on = |i: u8, nm: &str, x: &str| if k == i && n > 0 { cat!(" ", nm, "=\"", j(x), "\"") } else { String::new() };
    let d = doc(&ea("La", &cat!(on(0, "a", &dec(b as i128)), on(1, "b-b", &esca(&s)), on(2, "c", "c-d"), on(3, "d", tf(f))), "")); let m = |i: u8| if k == i { n } else { 0 };
    writes(&La { a: vec![b; m(0)], b: vec![s; m(1)], c: (0..m(2)).map(|_| Un::C).collect(), d: vec![f; m(3)], e: None }, &d) }
}
