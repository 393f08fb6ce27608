use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sk { a: String, #[yaserde(skip_serializing = true)] b: String, #[yaserde(skip_serializing = true)] c: Option<String>, #[yaserde(skip_serializing = true)] d: Vec<u8>, e: u8, #[yaserde(skip_serializing = true)] f: i32, #[yaserde(skip_serializing = true)] g: Leaf, #[yaserde(skip_serializing = true)] h: Option<Leaf>, #[yaserde(skip_serializing = true)] i: Vec<Leaf>, z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ska { #[yaserde(attribute = true)] a: String, #[yaserde(attribute = true, skip_serializing = true)] b: String, #[yaserde(attribute = true, skip_serializing = true)] c: Option<u8>, #[yaserde(attribute = true)] d: Option<u8>, #[yaserde(attribute = true, skip_serializing = true)] e: i32, #[yaserde(attribute = true, skip_serializing = true)] f: Un, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Skt { #[yaserde(attribute = true)] a: String, #[yaserde(text = true, skip_serializing = true)] t: String, s: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Skc { #[yaserde(cdata = true, skip_serializing = true)] c: String, #[yaserde(cdata = true)] d: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Skf { a: String, #[yaserde(flatten = true, skip_serializing = true)] f: Fl, #[yaserde(flatten = true, skip_serializing = true)] o: Option<Fm>, z: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { x: String, #[yaserde(attribute = true)] k: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fm { y: String, #[yaserde(attribute = true)] l: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, B, C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Co { #[yaserde(skip_serializing_if = "is_s")] a: String, #[yaserde(skip_serializing_if = "is_n")] b: u8, #[yaserde(skip_serializing_if = "is_b")] c: bool, #[yaserde(skip_serializing_if = "is_o")] d: Option<String>, #[yaserde(skip_serializing_if = "is_v")] e: Vec<String>, #[yaserde(skip_serializing_if = "is_l")] f: Leaf, #[yaserde(skip_serializing_if = "is_ol")] g: Option<Leaf>, #[yaserde(skip_serializing_if = "is_u")] h: Un, z: String }
impl Co { fn is_s(&self, v: &str) -> bool { v == "x" || v == "<" } fn is_n(&self, v: &u8) -> bool { *v > 127 } fn is_b(&self, v: &bool) -> bool { !*v } fn is_o(&self, v: &Option<String>) -> bool { v.as_deref() == Some("x") } fn is_v(&self, v: &Vec<String>) -> bool { v.len() == 1 } fn is_l(&self, v: &Leaf) -> bool { v.s.is_none() } fn is_ol(&self, v: &Option<Leaf>) -> bool { v.as_ref().map_or(false, |l| l.s.is_some()) } fn is_u(&self, v: &Un) -> bool { *v == Un::B } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ca { #[yaserde(attribute = true, skip_serializing_if = "is_s")] a: String, #[yaserde(attribute = true, skip_serializing_if = "is_n")] b: u8, #[yaserde(attribute = true, skip_serializing_if = "is_b")] c: bool, #[yaserde(attribute = true, skip_serializing_if = "is_o")] d: Option<String>, #[yaserde(attribute = true, skip_serializing_if = "is_i")] e: Option<i32>, #[yaserde(attribute = true, skip_serializing_if = "is_u")] f: Un, z: Option<String> }
impl Ca { fn is_s(&self, v: &str) -> bool { v == "x" || v == "<" } fn is_n(&self, v: &u8) -> bool { *v > 127 } fn is_b(&self, v: &bool) -> bool { *v } fn is_o(&self, v: &Option<String>) -> bool { v.as_deref() == Some("x") } fn is_i(&self, v: &Option<i32>) -> bool { v.is_some_and(|v| v < 0) } fn is_u(&self, v: &Un) -> bool { *v == Un::B } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cx { #[yaserde(text = true, skip_serializing_if = "is_s")] t: String, #[yaserde(attribute = true)] k: u8, #[yaserde(skip_serializing_if = "is_z")] z: Option<u8> }
impl Cx { fn is_s(&self, v: &str) -> bool { v.starts_with('x') } fn is_z(&self, _v: &Option<u8>) -> bool { self.k > 9 } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cf { #[yaserde(flatten = true, skip_serializing_if = "is_f")] f: Fl, #[yaserde(flatten = true, skip_serializing_if = "is_m")] o: Option<Fm>, z: String }
impl Cf { fn is_f(&self, v: &Fl) -> bool { v.k > 9 } fn is_m(&self, v: &Option<Fm>) -> bool { v.as_ref().map_or(false, |v| v.l > 9) } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct De { #[yaserde(default = "ds")] a: String, #[yaserde(default = "du8")] b: u8, #[yaserde(default = "di")] c: i32, #[yaserde(default = "dt")] d: bool, #[yaserde(default = "dl")] e: Leaf, #[yaserde(default = "dun")] f: Un, #[yaserde(default = "dd")] g: f64, z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Da { #[yaserde(attribute = true, default = "ds")] a: String, #[yaserde(attribute = true, default = "du8")] b: u8, #[yaserde(attribute = true, default = "di")] c: i32, #[yaserde(attribute = true, default = "dt")] d: bool, #[yaserde(attribute = true, default = "dun")] f: Un, #[yaserde(attribute = true, default = "dd")] g: f64, #[yaserde(attribute = true)] z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Dt { #[yaserde(text = true, default = "ds")] t: String, #[yaserde(attribute = true, default = "du8")] k: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Dc { #[yaserde(cdata = true, default = "ds")] c: String, n: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Bo { #[yaserde(default = "ds", skip_serializing_if = "is_s")] a: String, #[yaserde(default = "du8", skip_serializing_if = "is_n")] b: u8, #[yaserde(attribute = true, default = "ds", skip_serializing_if = "is_s")] c: String, #[yaserde(attribute = true, default = "du8", skip_serializing_if = "is_n")] d: u8, #[yaserde(skip_serializing = true, default = "ds")] e: String }
impl Bo { fn is_s(&self, v: &str) -> bool { v == "x" } fn is_n(&self, v: &u8) -> bool { *v > 127 } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sd { #[yaserde(skip_serializing = true, default = "ds")] a: String, #[yaserde(attribute = true, skip_serializing = true, default = "du8")] b: u8, c: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Op { #[yaserde(default = "dos")] a: Option<String>, #[yaserde(attribute = true, default = "don")] b: Option<u8>, #[yaserde(default = "dv")] c: Vec<u8>, d: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n", default = "ds")] a: String, #[yaserde(prefix = "n", skip_serializing_if = "is_s")] b: String, #[yaserde(prefix = "n", skip_serializing = true)] c: Option<String>, #[yaserde(attribute = true, prefix = "n", default = "du8")] k: u8 }
impl Ns { fn is_s(&self, v: &str) -> bool { v == "x" } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Out { i: De2, o: Option<De2>, v: Vec<De2>, #[yaserde(skip_serializing_if = "no")] s: String }
impl Out { fn no(&self, _v: &str) -> bool { false } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct De2 { #[yaserde(default = "ds")] a: String, #[yaserde(skip_serializing_if = "yes")] b: Option<String>, #[yaserde(rename = "c-c", default = "du8")] c: u8 }
impl De2 { fn yes(&self, _v: &Option<String>) -> bool { true } }
fn ds() -> String { "x".into() }
fn du8() -> u8 { 7 }
fn di() -> i32 { -1 }
fn dt() -> bool { true }
fn dl() -> Leaf { Leaf { s: Some("x".into()) } }
fn dun() -> Un { Un::C }
fn dd() -> f64 { 1.5 }
fn dos() -> Option<String> { Some("x".into()) }
fn don() -> Option<u8> { Some(7) }
fn dv() -> Vec<u8> { vec![1, 2] }
fn s(x: &str) -> String { x.into() }
fn st() -> String { upto::<1>("s") }
fn at(n: &str, v: &str) -> String { cat!(" ", n, "=\"", esca(v), "\"") }
fn ea(n: &str, at: &str, c: &str) -> String { if c.is_empty() { cat!("<", n, at, " />") } else { cat!("<", n, at, ">", c, "</", n, ">") } }
fn e1(n: &str, v: &str) -> String { el(n, &esc(v)) }
fn on(c: bool, x: String) -> String { if c { x } else { String::new() } }
fn un() -> Un { match choice("un", 3) { 0 => Un::A, 1 => Un::B, _ => Un::C } }
fn uname(u: &Un) -> &'static str { match u { Un::A => "A", Un::B => "B", Un::C => "C" } }
fn leaf() -> Leaf { Leaf { s: opt("l", st) } }
fn x_leaf(n: &str, l: &Leaf) -> String { ea(n, "", &l.s.as_ref().map_or(s(""), |v| e1("s", v))) }
fn ol(v: &Option<String>, f: impl Fn(&str) -> String) -> String { v.as_ref().map_or(String::new(), |v| f(v)) }
fn d8(v: u8) -> String { dec(v as i128) }
/// Written as prescribed and, when only defaults are left out, read back to the same value.
fn both<T: YaSerialize + YaDeserialize + PartialEq>(v: T, d: &str) { writes(&v, d); reads(d, &v) }
/// every primitive type in every kind of place: each field has its default or skipped value or another one, all combinations
macro_rules! places { ($($m:ident $t:ident [$($v:expr => $x:expr),*];)*) => { $(mod $m {
  use util::*;
  fn d() -> $t { v()[0].0.clone() }
  fn od() -> Option<$t> { Some(d()) }
  fn vd() -> Vec<$t> { vec![d()] }
  pub fn v() -> Vec<($t, &'static str)> { vec![$(($v, $x)),*] }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
  pub struct T { #[yaserde(attribute = true, default = "d")] a: $t, #[yaserde(attribute = true, skip_serializing_if = "no")] b: Option<$t>, #[yaserde(attribute = true)] c: Vec<$t>, #[yaserde(attribute = true, rename = "d-d", default = "od")] d: Option<$t>, #[yaserde(attribute = true, skip_serializing = true, default = "d")] k: $t,
    #[yaserde(default = "d")] e: $t, #[yaserde(skip_serializing_if = "no")] f: Option<$t>, #[yaserde(default = "vd")] g: Vec<$t>, #[yaserde(rename = "h-h", default = "od")] h: Option<$t>, #[yaserde(skip_serializing = true, default = "d")] l: $t, m: $t }
  impl T { fn no(&self, x: &Option<$t>) -> bool { *x == od() } }
  pub fn go() {
    let w = v(); let x = |n: &str| -> ($t, &'static str) { if flag(n) { w[1].clone() } else { w[0].clone() } };
    let (a, b, c, e, f, h) = (x("a"), x("b"), x("c"), x("e"), x("f"), x("h")); let l = w[w.len() - 1].clone(); let one = |x: &($t, &'static str)| x.1 != w[0].1;
    let at = |n: &str, v: &str| cat!(" ", n, "=\"", v, "\""); let o = |c: bool, s: String| if c { s } else { String::new() };
    let t = T { a: a.0.clone(), b: Some(b.0.clone()), c: vec![c.0.clone(), l.0.clone()], d: Some(h.0.clone()), k: l.0.clone(), e: e.0.clone(), f: Some(f.0.clone()), g: vec![f.0.clone()], h: Some(h.0.clone()), l: l.0.clone(), m: l.0.clone() };
    let d = doc(&cat!("<T", o(one(&a), at("a", a.1)), o(one(&b), at("b", b.1)), at("c", &cat!(c.1, " ", l.1)), o(one(&h), at("d-d", h.1)), ">", o(one(&e), el("e", e.1)), o(one(&f), el("f", f.1)), o(one(&f), el("g", f.1)), o(one(&h), el("h-h", h.1)), el("m", l.1), "</T>"));
    writes(&t, &d);
    let z = |x: &($t, &'static str)| if one(x) { Some(x.0.clone()) } else { None };
    reads(&d, &T { b: z(&b), f: z(&f), d: z(&h), h: z(&h), g: z(&f).into_iter().collect(), k: w[0].0.clone(), l: w[0].0.clone(), ..t })
  }
})* } }
places! { m_bool bool [true => "true", false => "false"]; m_u8 u8 [200 => "200", 0 => "0", 255 => "255"]; m_i8 i8 [-128 => "-128", 0 => "0", 127 => "127"]; m_u16 u16 [65535 => "65535", 1 => "1", 256 => "256"]; m_i16 i16 [-32768 => "-32768", 7 => "7", 32767 => "32767"]; m_u32 u32 [4294967295 => "4294967295", 0 => "0", 65536 => "65536"]; m_i32 i32 [-2147483648 => "-2147483648", -1 => "-1", 2147483647 => "2147483647"]; m_u64 u64 [18446744073709551615 => "18446744073709551615", 0 => "0", 4294967296 => "4294967296"]; m_i64 i64 [-9223372036854775808 => "-9223372036854775808", 0 => "0", 9223372036854775807 => "9223372036854775807"]; m_f32 f32 [1.5 => "1.5", -0.1 => "-0.1", 3.0e10 => "30000000000"]; m_f64 f64 [0.1 => "0.1", -2.5e-3 => "-0.0025", 1e17 => "100000000000000000"]; m_string String ["x".into() => "x", "y".into() => "y", "q-r".into() => "q-r"]; }
harnesses! {
  fn q_words() { let w = word("w"); let n = number("n") as u8; writes(&De2 { a: w.clone(), b: Some(w.clone()), c: n }, &doc(&ea("De2", "", &cat!(on(w != "x", e1("a", &w)), on(n != 7, el("c-c", &d8(n))))))); writes(&Skt { a: w.clone(), t: w.clone(), s: None }, &doc(&cat!("<Skt", at("a", &w), " />"))); writes(&Skc { c: w.clone(), d: w.clone() }, &doc(&cat!("<Skc><d><![CDATA[", w.replace("]]>", "]]]]><![CDATA[>"), "]]></d></Skc>"))) }
  fn q_skip() { let x = st(); let y = st(); let d = doc(&ea("Sk", "", &cat!(e1("a", &x), "<e>5</e>", "<z>z</z>"))); writes(&Sk { a: x, b: y.clone(), c: opt("c", || y.clone()), d: list("d", 2, || 3), e: 5, f: byte("f") as i32, g: Leaf { s: Some(y.clone()) }, h: opt("h", || Leaf { s: None }), i: list("i", 2, || Leaf { s: Some(s("i")) }), z: Some(s("z")) }, &d) }
  fn q_skip_attr() { let x = any::<1>("x"); let y = any::<1>("y"); let dd = opt("d", || 4); let d = doc(&ea("Ska", &cat!(at("a", &x), on(dd.is_some(), at("d", "4"))), "<s>1</s>")); writes(&Ska { a: x, b: y, c: opt("c", || byte("cv")), d: dd, e: byte("e") as i32, f: un(), s: Some(s("1")) }, &d) }
  fn q_skip_text() { let x = st(); let z = opt("z", || 3); writes(&Skt { a: s("k"), t: x.clone(), s: z }, &doc(&ea("Skt", " a=\"k\"", &on(z.is_some(), s("<s>3</s>"))))); writes(&Skc { c: x, d: s("d") }, &doc("<Skc><d><![CDATA[d]]></d></Skc>")) }
  fn q_skip_flat() { let x = st(); writes(&Skf { a: s("a"), f: Fl { x: x.clone(), k: byte("k") }, o: opt("o", || Fm { y: x, l: 3 }), z: s("z") }, &doc("<Skf><a>a</a><z>z</z></Skf>")) }
  fn q_if() { let k = choice("focus", 8); let mut v = Co { a: s("q"), b: 1, c: true, d: None, e: vec![], f: Leaf { s: Some(s("f")) }, g: None, h: Un::A, z: s("z") }; match k { 0 => v.a = upto::<2>("a"), 1 => v.b = byte("b"), 2 => v.c = bool_("c"), 3 => v.d = opt("d", st), 4 => v.e = list("e", 3, || s("i")), 5 => v.f = leaf(), 6 => v.g = opt("g", leaf), _ => v.h = un() }
    let b = cat!(on(v.a != "x" && v.a != "<", e1("a", &v.a)), on(v.b <= 127, el("b", &d8(v.b))), on(v.c, s("<c>true</c>")), on(v.d.as_deref() != Some("x"), ol(&v.d, |d| e1("d", d))), on(v.e.len() != 1, v.e.iter().map(|i| e1("e", i)).collect()), on(v.f.s.is_some(), x_leaf("f", &v.f)), on(v.g != Some(Leaf { s: None }) || true, match &v.g { Some(l) if l.s.is_none() => x_leaf("g", l), _ => s("") }), on(v.h != Un::B, el("h", uname(&v.h))), "<z>z</z>"); writes(&v, &doc(&ea("Co", "", &b))) }
  fn q_if_many() { let v = Co { a: if flag("a") { s("x") } else { s("y") }, b: if flag("b") { 200 } else { 2 }, c: bool_("c"), d: pick("d", &[None, Some("x"), Some("y")]).map(s), e: list("e", 2, || s("i")), f: Leaf { s: opt("f", || s("f")) }, g: opt("g", || Leaf { s: opt("gs", || s("g")) }), h: un(), z: s("") };
    let b = cat!(on(v.a != "x", e1("a", &v.a)), on(v.b <= 127, el("b", &d8(v.b))), on(v.c, s("<c>true</c>")), on(v.d.as_deref() != Some("x"), ol(&v.d, |d| e1("d", d))), on(v.e.len() != 1, v.e.iter().map(|i| e1("e", i)).collect()), on(v.f.s.is_some(), x_leaf("f", &v.f)), match &v.g { Some(l) if l.s.is_none() => x_leaf("g", l), _ => s("") }, on(v.h != Un::B, el("h", uname(&v.h))), "<z></z>"); writes(&v, &doc(&ea("Co", "", &b))) }
  fn q_if_attr() { let k = choice("focus", 6); let mut v = Ca { a: s("q"), b: 1, c: false, d: None, e: None, f: Un::A, z: None }; match k { 0 => v.a = any::<1>("a"), 1 => v.b = byte("b"), 2 => v.c = bool_("c"), 3 => v.d = opt("d", || any::<1>("d")), 4 => v.e = opt("e", || i32_("ev")), _ => v.f = un() }
    let b = cat!(on(v.a != "x" && v.a != "<", at("a", &v.a)), on(v.b <= 127, at("b", &d8(v.b))), on(!v.c, at("c", "false")), on(v.d.as_deref() != Some("x"), ol(&v.d, |d| at("d", d))), v.e.map_or(s(""), |e| on(e >= 0, at("e", &dec(e as i128)))), on(v.f != Un::B, at("f", uname(&v.f)))); writes(&v, &doc(&ea("Ca", &b, ""))) }
  fn q_if_attr_many() { let v = Ca { a: s(pick("a", &["x", "y"])), b: pick("b", &[127u8, 128]), c: flag("c"), d: pick("d", &[None, Some("x"), Some("y")]).map(s), e: pick("e", &[None, Some(-1), Some(0)]), f: un(), z: opt("z", || s("z")) };
    let b = cat!(on(v.a != "x", at("a", &v.a)), on(v.b <= 127, at("b", &d8(v.b))), on(!v.c, at("c", "false")), on(v.d.as_deref() != Some("x"), ol(&v.d, |d| at("d", d))), v.e.map_or(s(""), |e| on(e >= 0, at("e", &dec(e as i128)))), on(v.f != Un::B, at("f", uname(&v.f)))); writes(&v, &doc(&ea("Ca", &b, &on(v.z.is_some(), s("<z>z</z>"))))) }
  fn q_if_text() { let t = upto::<2>("t"); let k = byte("k"); let z = opt("z", || 3); let c = cat!(if t.starts_with('x') { s("") } else { esc(&t) }, on(k <= 9 && z.is_some(), s("<z>3</z>"))); let out = ser(&Cx { t: t.clone(), k, z }); let d = if c.is_empty() && !t.starts_with('x') { doc(&cat!("<Cx", at("k", &d8(k)), "></Cx>")) } else { doc(&ea("Cx", &at("k", &d8(k)), &c)) }; observe(d.as_bytes()); check!(out == d, "output is not the prescribed document"); cover(0) }
  fn q_if_flat() { let f = Fl { x: st(), k: pick("k", &[0u8, 9, 10, 255]) }; let o = opt("o", || Fm { y: s("y"), l: pick("l", &[9u8, 10]) }); let fo = f.k <= 9; let oo = o.as_ref().is_some_and(|o| o.l <= 9); let d = doc(&ea("Cf", &cat!(on(fo, at("k", &d8(f.k))), on(oo, at("l", "9"))), &cat!(on(fo, e1("x", &f.x)), on(oo, s("<y>y</y>")), "<z>z</z>"))); writes(&Cf { f, o, z: s("z") }, &d) }
  fn q_default() { let k = choice("focus", 7); let mut v = De { a: ds(), b: 7, c: -1, d: true, e: dl(), f: Un::C, g: 1.5, z: opt("z", || s("z")) }; match k { 0 => v.a = upto::<2>("a"), 1 => v.b = byte("b"), 2 => v.c = byte("c") as i8 as i32, 3 => v.d = bool_("d"), 4 => v.e = leaf(), 5 => v.f = un(), _ => v.g = f64_("g") }
    let d = doc(&ea("De", "", &cat!(on(v.a != "x", e1("a", &v.a)), on(v.b != 7, el("b", &d8(v.b))), on(v.c != -1, el("c", &dec(v.c as i128))), on(!v.d, s("<d>false</d>")), on(v.e.s.as_deref() != Some("x"), x_leaf("e", &v.e)), on(v.f != Un::C, el("f", uname(&v.f))), on(v.g != 1.5, el("g", &v.g.to_string())), ol(&v.z, |z| e1("z", z))))); both(v, &d) }
  fn q_default_many() { let v = De { a: s(pick("a", &["x", "y", ""])), b: pick("b", &[7u8, 0]), c: pick("c", &[-1i32, 0]), d: flag("d"), e: Leaf { s: pick("e", &[None, Some("x"), Some("y")]).map(s) }, f: un(), g: pick("g", &[1.5, 0.0]), z: None };
    let d = doc(&ea("De", "", &cat!(on(v.a != "x", e1("a", &v.a)), on(v.b != 7, el("b", &d8(v.b))), on(v.c != -1, el("c", &dec(v.c as i128))), on(!v.d, s("<d>false</d>")), on(v.e.s.as_deref() != Some("x"), x_leaf("e", &v.e)), on(v.f != Un::C, el("f", uname(&v.f))), on(v.g != 1.5, el("g", &v.g.to_string()))))); both(v, &d) }
  fn q_default_attr() { let k = choice("focus", 6); let mut v = Da { a: ds(), b: 7, c: -1, d: true, f: Un::C, g: 1.5, z: opt("z", || s("z")) }; match k { 0 => v.a = any::<1>("a"), 1 => v.b = byte("b"), 2 => v.c = byte("c") as i8 as i32, 3 => v.d = bool_("d"), 4 => v.f = un(), _ => v.g = f64_("g") }
    let d = doc(&ea("Da", &cat!(on(v.a != "x", at("a", &v.a)), on(v.b != 7, at("b", &d8(v.b))), on(v.c != -1, at("c", &dec(v.c as i128))), on(!v.d, at("d", "false")), on(v.f != Un::C, at("f", uname(&v.f))), on(v.g != 1.5, at("g", &v.g.to_string())), ol(&v.z, |z| at("z", z))), "")); both(v, &d) }
  fn q_default_attr_many() { let v = Da { a: s(pick("a", &["x", "y", ""])), b: pick("b", &[7u8, 0]), c: pick("c", &[-1i32, 0]), d: flag("d"), f: un(), g: pick("g", &[1.5, 0.0]), z: None }; let d = doc(&ea("Da", &cat!(on(v.a != "x", at("a", &v.a)), on(v.b != 7, at("b", &d8(v.b))), on(v.c != -1, at("c", &dec(v.c as i128))), on(!v.d, at("d", "false")), on(v.f != Un::C, at("f", uname(&v.f))), on(v.g != 1.5, at("g", &v.g.to_string()))), "")); both(v, &d) }
  fn q_default_text() { let t = vis::<1>("t"); let k = byte("k"); let d = doc(&ea("Dt", &on(k != 7, at("k", &d8(k))), &on(t != "x", esc(&t)))); both(Dt { t, k }, &d) }
  fn q_default_cdata() { let c = upto::<2>("c"); assume(!c.contains("]")); let d = doc(&ea("Dc", "", &cat!(on(c != "x", cat!("<c><![CDATA[", c, "]]></c>")), "<n>1</n>"))); writes(&Dc { c: c.clone(), n: 1 }, &d); match de::<Dc>(&d) { Ok(v) => check!(v.c == c, "value changed in a round trip"), Err(_) => violation("own output refused") } }
  fn q_both() { let a = upto::<2>("a"); let b = byte("b"); let c = upto::<1>("c"); let d = pick("d", &[7u8, 0, 127, 128]); let x = doc(&ea("Bo", &cat!(on(c != "x", at("c", &c)), on(d != 7 && d <= 127, at("d", &d8(d)))), &cat!(on(a != "x", e1("a", &a)), on(b != 7 && b <= 127, el("b", &d8(b)))))); writes(&Bo { a, b, c, d, e: s("e") }, &x) }
  fn q_skip_default() { let a = st(); let c = opt("c", || s("c")); let d = doc(&ea("Sd", "", &ol(&c, |c| e1("c", c)))); writes(&Sd { a, b: byte("b"), c: c.clone() }, &d); reads(&d, &Sd { a: ds(), b: 7, c }) }
  fn q_option_default() { let a = pick("a", &[None, Some("x"), Some("y")]).map(s); let b = pick("b", &[None, Some(7u8), Some(8)]); let n = choice("n", 4); let c: Vec<u8> = (1..=n).collect(); let d = doc(&ea("Op", &on(b != don(), b.map_or(s(""), |b| at("b", &d8(b)))), &cat!(on(a != dos(), ol(&a, |a| e1("a", a))), on(c != dv(), c.iter().map(|i| el("c", &d8(*i))).collect()), "<d>1</d>"))); writes(&Op { a, b, c, d: 1 }, &d) }
  fn q_ns() { let a = st(); let b = st(); let k = pick("k", &[7u8, 8]); let d = doc(&ea("n:Ns", &cat!(" xmlns:n=\"ab\"", on(k != 7, at("n:k", &d8(k)))), &cat!(on(a != "x", e1("n:a", &a)), on(b != "x", e1("n:b", &b))))); writes(&Ns { a, b, c: opt("c", || s("c")), k }, &d) }
  fn q_nested() { let f = choice("focus", 3); let g = |i: u8| De2 { a: if i == f { st() } else { ds() }, b: Some(s("b")), c: if i == f { pick("c", &[7u8, 8]) } else { 7 } }; let x = |n: &str, v: &De2| ea(n, "", &cat!(on(v.a != "x", e1("a", &v.a)), on(v.c != 7, el("c-c", &d8(v.c))))); let i = g(0); let o = opt("o", || g(1)); let v = vec![g(2), g(9)]; let d = doc(&ea("Out", "", &cat!(x("i", &i), o.as_ref().map_or(s(""), |o| x("o", o)), v.iter().map(|v| x("v", v)).collect::<String>(), "<s>s</s>"))); writes(&Out { i, o, v, s: s("s") }, &d) }
  fn q_type_bool() { m_bool::go() }
  fn q_type_u8() { m_u8::go() }
  fn q_type_i8() { m_i8::go() }
  fn q_type_u16() { m_u16::go() }
  fn q_type_i16() { m_i16::go() }
  fn q_type_u32() { m_u32::go() }
  fn q_type_i32() { m_i32::go() }
  fn q_type_u64() { m_u64::go() }
  fn q_type_i64() { m_i64::go() }
  fn q_type_f32() { m_f32::go() }
  fn q_type_f64() { m_f64::go() }
  fn q_type_string() { m_string::go() }
}
