use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I8 { #[yaserde(attribute = true)] v: i8, #[yaserde(attribute = true)] o: Option<i8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U8 { #[yaserde(attribute = true)] v: u8, #[yaserde(attribute = true)] o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I16 { #[yaserde(attribute = true)] v: i16, #[yaserde(attribute = true)] o: Option<i16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U16 { #[yaserde(attribute = true)] v: u16, #[yaserde(attribute = true)] o: Option<u16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I32 { #[yaserde(attribute = true)] v: i32, #[yaserde(attribute = true)] o: Option<i32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U32 { #[yaserde(attribute = true)] v: u32, #[yaserde(attribute = true)] o: Option<u32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I64 { #[yaserde(attribute = true)] v: i64, #[yaserde(attribute = true)] o: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U64 { #[yaserde(attribute = true)] v: u64, #[yaserde(attribute = true)] o: Option<u64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct B { #[yaserde(attribute = true)] v: bool, #[yaserde(attribute = true)] o: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct F32 { #[yaserde(attribute = true)] v: f32, #[yaserde(attribute = true)] o: Option<f32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct F64 { #[yaserde(attribute = true)] v: f64, #[yaserde(attribute = true)] o: Option<f64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct S { #[yaserde(attribute = true)] v: String, #[yaserde(attribute = true)] o: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Near { #[yaserde(attribute = true)] id: String, #[yaserde(attribute = true)] idx: Option<String>, #[yaserde(attribute = true)] d: Option<String>, #[yaserde(attribute = true, rename = "i")] e: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Mixed { #[yaserde(attribute = true)] a: String, b: String, #[yaserde(attribute = true)] c: Option<u8>, d: Option<String>, #[yaserde(attribute = true, rename = "b")] f: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://p", "q" = "http://q" })]
struct Pre { #[yaserde(attribute = true, prefix = "p")] a: String, #[yaserde(attribute = true, prefix = "q", rename = "b")] b: Option<String>, #[yaserde(attribute = true)] c: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Inner { #[yaserde(attribute = true)] id: String, #[yaserde(attribute = true)] n: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Outer { #[yaserde(attribute = true)] id: String, inner: Inner, items: Vec<Inner>, last: Option<Inner> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Text { #[yaserde(attribute = true)] a: Option<String>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Names { #[yaserde(attribute = true, rename = "val")] a: u8, #[yaserde(attribute = true, rename = "VaL")] b: String, #[yaserde(attribute = true, rename = "vAl")] c: Option<u8>, #[yaserde(attribute = true, rename = "va")] d: String, #[yaserde(attribute = true, rename = "vals")] e: Option<String>, #[yaserde(attribute = true, rename = "val.y")] f: Option<String>, #[yaserde(attribute = true, rename = "val-x")] g: u8, #[yaserde(attribute = true, rename = "v")] h: bool, #[yaserde(attribute = true, rename = "\u{e9}")] i: u8, #[yaserde(attribute = true, rename = "xmlnsx")] j: i8, #[yaserde(attribute = true, rename = "al")] k: Option<bool>, #[yaserde(attribute = true, rename = "Names")] l: Option<u8>, #[yaserde(rename = "val")] m: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Wide { #[yaserde(attribute = true)] a0: u8, #[yaserde(attribute = true)] a1: String, #[yaserde(attribute = true)] a2: Option<u8>, #[yaserde(attribute = true)] a3: u8, #[yaserde(attribute = true)] a4: String, #[yaserde(attribute = true)] a5: Option<u8>, #[yaserde(attribute = true)] a6: u8, #[yaserde(attribute = true)] a7: String, #[yaserde(attribute = true)] a8: Option<u8>, #[yaserde(attribute = true)] a9: u8, #[yaserde(attribute = true)] b0: String, #[yaserde(attribute = true)] b1: Option<u8>, #[yaserde(attribute = true)] b2: u8, #[yaserde(attribute = true)] b3: String, #[yaserde(attribute = true)] b4: Option<u8>, #[yaserde(attribute = true)] b5: u8, #[yaserde(attribute = true)] b6: String, #[yaserde(attribute = true)] b7: Option<u8>, t: String }
macro_rules! sc { ($t:ident, $f:expr) => { match choice("shape", 3) { 0 => rt($t { v: $f, o: None }), 1 => rt($t { v: Default::default(), o: Some($f) }), _ => { let x = $f; rt($t { v: x.clone(), o: Some(x) }) } } } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, #[yaserde(rename = "b-b")] B, C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Lists { #[yaserde(attribute = true)] a: Vec<u8>, #[yaserde(attribute = true, rename = "b-b")] b: Vec<String>, #[yaserde(attribute = true)] c: Vec<Un>, #[yaserde(attribute = true)] d: Vec<bool>, #[yaserde(attribute = true)] e: Vec<f64>, #[yaserde(attribute = true)] f: Vec<i64>, g: Option<String>, #[yaserde(attribute = true)] h: Vec<f32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(namespaces = { "xsi" = "http://www.w3.org/2001/XMLSchema-instance", "xlink" = "http://www.w3.org/1999/xlink", "x" = "x", "xml" = "http://www.w3.org/XML/1998/namespace" })]
struct Usual { #[yaserde(attribute = true, prefix = "xsi", rename = "type")] t: String, #[yaserde(attribute = true, prefix = "xsi")] nil: Option<bool>, #[yaserde(attribute = true, prefix = "xlink")] href: Option<String>, #[yaserde(attribute = true, prefix = "x")] v: Vec<u8>, #[yaserde(attribute = true, prefix = "xml")] lang: Option<String>, #[yaserde(attribute = true, prefix = "xml")] id: Option<u8>, s: Option<String> }
harnesses! {
  fn q_usual() { rt(Usual { t: any::<1>("t"), nil: opt("nil", || bool_("nv")), href: opt("href", || "h".to_string()), v: list("v", 2, || 3), lang: opt("lang", || any::<1>("lv")), id: opt("id", || 4), s: opt("s", || "s".to_string()) }) }
  fn q_words() { let w = word("w"); let c = vis::<1>("c"); match choice("at", 5) { 0 => rt(S { v: w.clone(), o: Some(w) }), 1 => rt(Near { id: c.clone(), idx: Some(w), d: None, e: c }), 2 => rt(Mixed { a: w.clone(), b: c, c: None, d: Some(w.clone()), f: w }), 3 => rt(Text { a: Some(w), t: c }), _ => rt(Pre { a: w.clone(), b: Some(w), c }) } }
  fn q_numbers() { let n = number("n"); match choice("at", 5) { 0 => rt(U64 { v: n, o: Some(n) }), 1 => rt(I64 { v: (n as i64).wrapping_neg(), o: Some(n as i64) }), 2 => rt(F64 { v: n as f64, o: None }), 3 => rt(I16 { v: n as i16, o: Some((n as i16).wrapping_neg()) }), _ => rt(U8 { v: n as u8, o: Some(n as u8) }) } }
  fn q_sizes() { let n = size("n"); let c = vis::<1>("c"); rt(S { v: cat!("x".repeat(n), c), o: Some(c) }) }
  fn q_i8() { sc!(I8, i8_("v")) } fn q_u8() { sc!(U8, u8_("v")) } fn q_i16() { sc!(I16, i16_("v")) } fn q_u16() { sc!(U16, u16_("v")) }
  fn q_i32() { sc!(I32, i32_("v")) } fn q_u32() { sc!(U32, u32_("v")) } fn q_i64() { sc!(I64, i64_("v")) } fn q_u64() { sc!(U64, u64_("v")) }
  fn q_bool() { rt(B { v: bool_("v"), o: opt("o", || bool_("ov")) }) }
  fn q_f32() { sc!(F32, f32_("v")) } fn q_f64() { sc!(F64, f64_("v")) }
  fn q_u8_full() { rt(U8 { v: byte("v"), o: None }) }
  fn q_str() { rt(S { v: any::<3>("v"), o: None }) }
  fn q_ostr() { rt(S { v: String::new(), o: opt("o", || any::<2>("ov")) }) }
  fn q_two() { rt(S { v: any::<1>("v"), o: Some(any::<1>("o")) }) }
  fn q_empty() { rt(S { v: String::new(), o: Some(String::new()) }) }
  fn q_near() { let k = choice("focus", 4); let f = |i: u8| if i == k { any::<1>("c") } else { ["id", "x", "", "e"][i as usize].to_string() };
    rt(Near { id: f(0), idx: opt("idx", || f(1)), d: opt("d", || f(2)), e: f(3) }) }
  fn q_mixed() { let k = choice("focus", 3); let f = |i: u8| if i == k { vis::<2>("c") } else { ["a", "", "b"][i as usize].to_string() };
    rt(Mixed { a: f(0), b: f(1), c: opt("c", || byte("cv") & 15), d: opt("d", || "d".to_string()), f: f(2) }) }
  fn q_prefix() { let k = choice("focus", 3); let f = |i: u8| if i == k { any::<2>("c") } else { ["a", "", "c"][i as usize].to_string() };
    rt(Pre { a: f(0), b: opt("b", || f(1)), c: f(2) }) }
  fn q_nested() { let k = choice("focus", 4); let f = |i: u8| if i == k { any::<1>("c") } else { ["o", "", "i", "l"][i as usize].to_string() };
    rt(Outer { id: f(0), inner: Inner { id: f(1), n: opt("n", || 7) }, items: list("items", 2, || Inner { id: f(2), n: None }), last: opt("last", || Inner { id: f(3), n: Some(255) }) }) }
  fn q_names() { rt(Names { a: 1, b: "2".into(), c: opt("c", || 3), d: "4".into(), e: opt("e", || "5".to_string()), f: opt("f", || any::<1>("fv")), g: byte("g"), h: bool_("h"), i: 9, j: -1, k: opt("k", || true), l: opt("l", || 7), m: opt("m", || 8) }) }
  fn q_wide() { let o = bytes::<6>("o"); let f = |i: usize, v: u8| if o[i] & 1 == 1 { Some(v) } else { None }; let s = any::<1>("s"); rt(Wide { a0: 0, a1: s.clone(), a2: f(0, 2), a3: 3, a4: "4".into(), a5: f(1, 5), a6: 6, a7: "".into(), a8: f(2, 8), a9: 9, b0: "10".into(), b1: f(3, 11), b2: 12, b3: s, b4: f(4, 14), b5: 15, b6: "16".into(), b7: f(5, 17), t: "t".into() }) }
  fn q_lengths() { let n = choice("n", 71) as usize; let u = pick("u", &["", "\u{e9}", "\u{20ac}", "\u{10348}"]); let c = any::<1>("c"); match choice("w", 3) { 0 => rt(S { v: ["x".repeat(n).as_str(), u, &c].concat(), o: None }), 1 => rt(S { v: [c.as_str(), u, &"x".repeat(n)].concat(), o: Some(u.repeat(n)) }), _ => rt(S { v: "".into(), o: Some([u, &" ".repeat(n), &c, u].concat()) }) } }
  fn q_uni() { let n = choice("len", 3) + 2; rt(S { v: [any::<1>("p"), uni("c", n)].concat(), o: Some(uni("d", n)) }) }
  fn q_text() { rt(Text { a: opt("a", || any::<2>("av")), t: upto::<1>("t") }) }
  fn q_long() { let n = pick("len", &[15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024]);
    let c = any::<1>("c"); let p = [0, n / 2, n][choice("at", 3) as usize]; rt(S { v: ["x".repeat(p), c, "y".repeat(n - p)].concat(), o: None }) }
  fn t_str4() { rt(S { v: any::<4>("v"), o: None }) }
  fn t_two() { rt(S { v: any::<2>("v"), o: Some(any::<2>("o")) }) }
  fn q_lists() { let k = choice("k", 7); let mut v = Lists { a: vec![], b: vec!["x".into()], c: vec![], d: vec![], e: vec![], f: vec![], g: opt("g", || "g".into()), h: vec![] }; match k { 0 => { let b = byte("b"); v.a = list("n", 3, || b) } 1 => { let c = choice("n", 4); let at = choice("at", 3); v.b = (0..c).map(|i| if i == at { vis::<2>("c") } else { "a".into() }).collect() } 2 => v.c = list("n", 3, || match choice("u", 3) { 0 => Un::A, 1 => Un::B, _ => Un::C }), 3 => v.d = list("n", 3, || bool_("d")), 4 => v.e = list("n", 2, || f64_("e")), 5 => v.f = vec![1, i64_("f"), -1], _ => v.h = list("n", 2, || f32_("h")) } rt(v) }
  fn q_lists_uni() { let c = choice("len", 3) + 2; let s = uni("s", c); rt(Lists { a: vec![1, 2, 3], b: vec![s.clone(), "y".into(), s], c: vec![Un::C, Un::B], d: vec![true], e: vec![-0.5], f: vec![], g: None, h: vec![1.0, 2.5] }) }
  fn q_lists_many() { let n = pick("n", &[8usize, 17, 40, 100]); let b = byte("b"); rt(Lists { a: (0..n).map(|i| if i + 1 == n { b } else { i as u8 }).collect(), b: (0..n).map(|i| ["s", "tt", "&"][i % 3].to_string()).collect(), c: vec![], d: (0..n).map(|i| i % 3 == 0).collect(), e: vec![], f: vec![], g: None, h: vec![] }) }
}
