use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I8 { v: i8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U8 { v: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I16 { v: i16 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U16 { v: u16 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I32 { v: i32 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U32 { v: u32 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct I64 { v: i64 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct U64 { v: u64 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct B { v: bool }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct F32 { v: f32 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct F64 { v: f64 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct S { v: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OI8 { v: Option<i8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OU8 { v: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OI16 { v: Option<i16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OU16 { v: Option<u16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OI32 { v: Option<i32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OU32 { v: Option<u32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OI64 { v: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OU64 { v: Option<u64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OB { v: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OF32 { v: Option<f32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OF64 { v: Option<f64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct OS { v: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VI8 { v: Vec<i8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VU8 { v: Vec<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VI16 { v: Vec<i16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VU16 { v: Vec<u16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VI32 { v: Vec<i32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VU32 { v: Vec<u32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VI64 { v: Vec<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VU64 { v: Vec<u64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VB { v: Vec<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VF32 { v: Vec<f32> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VF64 { v: Vec<f64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct VS { v: Vec<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Mix { a: u8, b: String, c: bool, d: Option<i32>, e: Vec<u16>, f: i64, g: Option<String>, h: Vec<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Many { v: Vec<u8>, w: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Two { a: String, b: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "a")]
struct Names { #[yaserde(rename = "a")] x: String, #[yaserde(rename = "B")] y: String, #[yaserde(rename = "a.b")] z: Option<u8>, r#type: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Near { #[yaserde(rename = "val")] a: u8, #[yaserde(rename = "VaL")] b: String, #[yaserde(rename = "vAl")] c: Option<u8>, #[yaserde(rename = "va")] d: Vec<u8>, #[yaserde(rename = "vals")] e: Vec<String>, #[yaserde(rename = "val.y")] f: Option<String>, #[yaserde(rename = "val-x")] g: u8, #[yaserde(rename = "v")] h: bool, #[yaserde(rename = "\u{e9}")] i: u8, #[yaserde(rename = "vval")] j: i8, #[yaserde(rename = "al")] k: Option<bool>, #[yaserde(rename = "Near")] l: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct ManyS { w: u8, v: Vec<String>, x: Vec<bool>, y: Vec<i64>, z: Option<u8> }

fn three<A, B, C, T>(f: impl Fn() -> T, a: impl Fn(T) -> A, b: impl Fn(Option<T>) -> B, c: impl Fn(Vec<T>) -> C, n: u8)
where A: YaSerialize + YaDeserialize + PartialEq, B: YaSerialize + YaDeserialize + PartialEq, C: YaSerialize + YaDeserialize + PartialEq {
  match choice("shape", 3) {
    0 => rt(a(f())),
    1 => rt(b(opt("some", f))),
    _ => rt(c(list("n", n, f))),
  }
}
macro_rules! hs { ($($q:ident = $f:expr, $a:ident $b:ident $c:ident $n:expr;)* ; $($rest:tt)*) => {
  harnesses! { $(fn $q() { three(|| $f, |v| $a { v }, |v| $b { v }, |v| $c { v }, $n) })* $($rest)* } } }
hs! {
  q_i8 = i8_("v"), I8 OI8 VI8 2; q_u8 = u8_("v"), U8 OU8 VU8 2; q_i16 = i16_("v"), I16 OI16 VI16 2; q_u16 = u16_("v"), U16 OU16 VU16 2;
  q_i32 = i32_("v"), I32 OI32 VI32 1; q_u32 = u32_("v"), U32 OU32 VU32 1; q_i64 = i64_("v"), I64 OI64 VI64 1; q_u64 = u64_("v"), U64 OU64 VU64 1;
  q_bool = bool_("v"), B OB VB 4; q_f32 = f32_("v"), F32 OF32 VF32 2; q_f64 = f64_("v"), F64 OF64 VF64 2;
  q_str = upto::<2>("v"), S OS VS 2; ;
  fn q_u8_full() { rt(U8 { v: byte("v") }) }
  fn q_i8_full() { rt(OI8 { v: Some(byte("v") as i8) }) }
  fn t_u16_full() { let b = bytes::<2>("v"); rt(U16 { v: u16::from_le_bytes(b) }) }
  fn t_i16_full() { let b = bytes::<2>("v"); rt(VI16 { v: vec![i16::from_le_bytes(b)] }) }
  fn q_text() { rt(S { v: txt::<4>("v") }) }
  fn t_text() { rt(OS { v: Some(txt::<5>("v")) }) }
  fn q_uni() { let n = choice("len", 3) + 2; rt(Two { a: [vis::<1>("p"), uni("c", n), vis::<1>("q")].concat(), b: uni("d", n) }) }
  fn q_nan() { if choice("w", 2) == 0 {
      let s = ser(&F32 { v: f32::NAN }); check!(must::<F32>(&s).v.is_nan(), "NaN lost")
    } else { let s = ser(&VF64 { v: vec![f64::NAN, 1.0] }); let w = must::<VF64>(&s).v; check!(w.len() == 2 && w[0].is_nan() && w[1] == 1.0, "NaN lost") } cover(0) }
  fn q_mix() {
    let k = choice("focus", 5);
    let b = if k == 0 { upto::<2>("b") } else { pick("b", &["", "x", "a<b"]).to_string() };
    let h = if k == 1 { list("h", 2, || upto::<1>("hv")) } else { pick("h", &[&[][..], &["", "a"], &["q", "", "&"]]).iter().map(|s| s.to_string()).collect() };
    let g = if k == 2 { opt("g", || upto::<2>("gv")) } else { opt("g", || "t".to_string()) };
    let e = if k == 3 { list("e", 2, || 1000 + byte("ev") as u16) } else { pick("e", &[&[][..], &[7], &[65535, 0, 1]]).to_vec() };
    rt(Mix { a: if k == 4 { byte("a") } else { 9 }, b, c: bool_("c"), d: opt("d", || if k == 4 { i32_("dv") } else { i32::MIN }), e, f: -1, g, h }) }
  fn q_near() { // names that differ by case, or continue one another
    rt(Near { a: 1, b: "2".into(), c: opt("c", || 3), d: list("d", 2, || 4), e: list("e", 2, || "5".to_string()), f: opt("f", || upto::<1>("fv")), g: byte("g"), h: bool_("h"), i: 9, j: -1, k: opt("k", || true), l: opt("l", || 7) }) }
  fn q_sizes() { // list lengths and text lengths around the powers of two
    let n = pick("n", &[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]); let c = vis::<1>("c"); let b = bool_("b"); match choice("w", 3) { 0 => rt(ManyS { w: 1, v: (0..n).map(|i| if i + 1 == n { c.clone() } else { "x".repeat(i % 5) }).collect(), x: vec![b], y: vec![], z: Some(2) }), 1 => rt(ManyS { w: 1, v: vec![c], x: (0..n).map(|i| b ^ (i % 3 == 0)).collect(), y: vec![-1], z: None }), _ => rt(ManyS { w: 1, v: vec![], x: vec![], y: (0..n as i64).map(|i| if i % 2 == 0 { i } else { i64::MIN + i }).collect(), z: Some(byte("z")) }) } }
  fn q_lengths() { // every text length up to 70, multi-byte characters at every position modulo 4
    let n = choice("n", 71) as usize; let u = pick("u", &["", "\u{e9}", "\u{20ac}", "\u{10348}"]); let c = vis::<1>("c"); match choice("w", 3) { 0 => rt(Two { a: ["x".repeat(n).as_str(), u, &c].concat(), b: "b".into() }), 1 => rt(Two { a: [c.as_str(), u, &"x".repeat(n)].concat(), b: u.repeat(n) }), _ => rt(OS { v: Some([u, &"x".repeat(n), &c, u].concat()) }) } }
  fn q_siblings() { rt(Two { a: vis::<2>("a"), b: vis::<2>("b") }) }
  fn q_names() { rt(Names { x: upto::<2>("x"), y: upto::<1>("y"), z: opt("z", || byte("zv")), r#type: byte("t") }) }
  fn q_long() { let n = pick("len", &[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]);
    let c = vis::<1>("c"); let at = pick("at", &[0usize, 1, 2]); let p = [0, n / 2, n][at];
    rt(Two { a: ["x".repeat(p), c, "y".repeat(n - p)].concat(), b: "b".into() }) }
  fn q_many() { let n = pick("n", &[7usize, 8, 9, 16, 17, 33, 64, 65, 100]); let k = byte("k");
    rt(Many { v: (0..n).map(|i| if i + 1 == n { k } else { i as u8 }).collect(), w: upto::<1>("w") }) }
  fn t_text6() { rt(S { v: txt::<6>("v") }) }
}
