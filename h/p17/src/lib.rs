use util::*;
/// The value (as two's complement bits) a decimal integer literal denotes, read independently of core::str::FromStr; None when it is not one of
/// this range (limits given as digits without sign, the lower one empty for unsigned types).
fn int(s: &str, min: &str, max: &str) -> Option<u64> {
  let b = s.as_bytes(); let (neg, d) = match b.first() { Some(b'-') if !min.is_empty() => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
  if d.is_empty() { return None } let mut v: u64 = 0; for c in d { if *c < b'0' || *c > b'9' { return None } }
  let mut z = 0; while z + 1 < d.len() && d[z] == b'0' { z += 1 } let d = &d[z..]; let lim = if neg { min } else { max }.as_bytes();
  if d.len() > lim.len() { return None } if d.len() == lim.len() { for i in 0..d.len() { if d[i] < lim[i] { break } if d[i] > lim[i] { return None } } }
  for c in d { v = v.wrapping_mul(10).wrapping_add((*c - b'0') as u64) } Some(if neg { 0u64.wrapping_sub(v) } else { v })
}
const L: [(&str, &str); 8] = [("128", "127"), ("", "255"), ("32768", "32767"), ("", "65535"), ("2147483648", "2147483647"), ("", "4294967295"), ("9223372036854775808", "9223372036854775807"), ("", "18446744073709551615")];
fn boolean(s: &str) -> Option<bool> { match s { "true" | "1" => Some(true), "false" | "0" => Some(false), _ => None } }
/// Float literals of one or two characters: digits with an optional sign or point.
fn float2(s: &str) -> Option<f64> {
  let b = s.as_bytes(); let d = |c: u8| if c >= b'0' && c <= b'9' { Some((c - b'0') as f64) } else { None };
  match b { [a] => d(*a), [b'-', x] => d(*x).map(|v| -v), [b'+', x] => d(*x), [b'.', x] => d(*x).map(|v| v / 10.0), [x, b'.'] => d(*x), [x, y] => match (d(*x), d(*y)) { (Some(x), Some(y)) => Some(x * 10.0 + y), _ => None }, _ => None }
}
/// literals close to the middle between two values, with the bits of the right one (computed from the exact decimal)
const H32: &[(&str, u32)] = &[("1.00000017881393432617187499", 0x3f800001), ("1.000000178813934326171875", 0x3f800002), ("1.00000017881393432617187501", 0x3f800002), ("16777217", 0x4b800000), ("16777217.0000000000001", 0x4b800001), ("16777216.9999999999999", 0x4b800000), ("16777219", 0x4b800002), ("0.1", 0x3dcccccd), ("0.3", 0x3e99999a), ("7.0064923216240853e-46", 0x00000000), ("7.0064923216240854e-46", 0x00000001), ("7.006492321624085354618e-46", 0x00000000), ("7.006492321624085354619e-46", 0x00000001), ("1.17549431e-38", 0x00800000), ("1.1754942807573642918e-38", 0x00800000), ("1.1754942807573642917e-38", 0x007fffff), ("3.4028235677973366e38", 0x7f7fffff), ("3.40282356779733661e38", 0x7f7fffff), ("3.4028235e38", 0x7f7fffff), ("340282346638528859811704183484516925440", 0x7f7fffff), ("33554435", 0x4c000001), ("123456789", 0x4ceb79a3), ("0.00000000000000000000000000000000000000001401298464324817070923729583289916131280", 0x00002710), ("8.5899346561e9", 0x50000000), ("-1.00000017881393432617187499", 0xbf800001), ("1e39", 0x7f800000), ("1e-50", 0x00000000), ("00001.5", 0x3fc00000), ("1.50000000000000000000000000000000000000000000000000000000000000000001", 0x3fc00000), ("4.7019774032891500318749461488889827112746622270883500860350068251e-38", 0x01800000)];
const H64: &[(&str, u64)] = &[("9007199254740993", 0x4340000000000000), ("9007199254740993.00000000000001", 0x4340000000000001), ("9007199254740992.99999999999999", 0x4340000000000000), ("9007199254740995", 0x4340000000000002), ("1.7976931348623157e308", 0x7fefffffffffffff), ("1.7976931348623158e308", 0x7fefffffffffffff), ("1.7976931348623159e308", 0x7ff0000000000000), ("2.4703282292062327e-324", 0x0000000000000000), ("2.4703282292062328e-324", 0x0000000000000001), ("2.2250738585072012e-308", 0x0010000000000000), ("2.2250738585072011e-308", 0x000fffffffffffff), ("0.1000000000000000055511151231257827021181583404541015625", 0x3fb999999999999a), ("0.10000000000000000555111512312578270211815834045410156251", 0x3fb999999999999a), ("1.00000000000000011102230246251565404236316680908203124", 0x3ff0000000000000), ("1.00000000000000011102230246251565404236316680908203125", 0x3ff0000000000000), ("1.00000000000000011102230246251565404236316680908203126", 0x3ff0000000000001), ("123456789012345678901234567890", 0x45f8ee90ff6c373e), ("0.3", 0x3fd3333333333333), ("1e23", 0x44b52d02c7e14af6), ("8.5e22", 0x44b1ffdbf6b2b2eb), ("-5e-324", 0x8000000000000001), ("6.02214076e23", 0x44dfe185ca57c517), ("7.2057594037927933e16", 0x4370000000000000), ("1e309", 0x7ff0000000000000), ("1e-330", 0x0000000000000000), ("18446744073709551615", 0x43f0000000000000), ("18446744073709551616", 0x43f0000000000000), ("0000000000000000000000000000000000000000000000000000000000000000000001.25", 0x3ff4000000000000), ("4503599627370497.5", 0x4330000000000002), ("4503599627370496.5", 0x4330000000000000)];
/// The six places a literal may stand in.
macro_rules! place { ($m:ident, $t:ty) => { mod $m { use util::*;
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct At { #[yaserde(attribute = true)] pub v: $t }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct Ao { #[yaserde(attribute = true)] pub v: Option<$t> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct El { pub v: $t }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct Eo { pub v: Option<$t>, pub w: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct Ev { pub v: Vec<$t>, pub w: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)] pub enum En { #[default] N, V($t) }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct Eh { pub h: En }
  pub fn check(place: u8, lit: &str, want: Option<$t>) {
    match place {
      0 => { let d = cat!("<At v=\"", esca(lit), "\"/>"); match want { Some(v) => reads(&d, &At { v }), None => refused::<At>(&d) } }
      1 => { let d = cat!("<Ao v=\"", esca(lit), "\"/>"); match want { Some(v) => reads(&d, &Ao { v: Some(v) }), None => refused::<Ao>(&d) } }
      2 => { let d = cat!("<El><v>", esc(lit), "</v></El>"); match want { Some(v) => reads(&d, &El { v }), None => refused::<El>(&d) } }
      3 => { let d = cat!("<Eo><v>", esc(lit), "</v><w>8</w></Eo>"); reads(&d, &Eo { v: want, w: Some(8) }) }
      4 => { let d = cat!("<Ev><v>1</v><v>", esc(lit), "</v><v>0</v><w>8</w></Ev>"); let one: $t = must::<El>("<El><v>1</v></El>").v; let zero: $t = must::<El>("<El><v>0</v></El>").v; let mut l = vec![one]; if let Some(v) = want { l.push(v) } l.push(zero); reads(&d, &Ev { v: l, w: Some(8) }) }
      _ => { let d = cat!("<Eh><h><V>", esc(lit), "</V></h></Eh>"); match want { Some(v) => reads(&d, &Eh { h: En::V(v) }), None => refused::<Eh>(&d) } }
    }
  }
} } }
place!(pi8, i8); place!(pu8, u8); place!(pi16, i16); place!(pu16, u16); place!(pi32, i32); place!(pu32, u32); place!(pi64, i64); place!(pu64, u64); place!(pb, bool); place!(pf32, f32); place!(pf64, f64);
/// list attributes
macro_rules! alist { ($m:ident, $t:ty) => { mod $m { use util::*; #[derive(YaDeserialize, PartialEq, Debug)] pub struct Av { #[yaserde(attribute = true)] pub v: Vec<$t> } } } }
alist!(lu8, u8); alist!(li32, i32); alist!(lb, bool);
fn ints(k: u8, p: u8, t: &str) {
  let w = int(t, L[k as usize].0, L[k as usize].1);
  match k { 0 => pi8::check(p, t, w.map(|v| v as i8)), 1 => pu8::check(p, t, w.map(|v| v as u8)), 2 => pi16::check(p, t, w.map(|v| v as i16)), 3 => pu16::check(p, t, w.map(|v| v as u16)), 4 => pi32::check(p, t, w.map(|v| v as i32)), 5 => pu32::check(p, t, w.map(|v| v as u32)), 6 => pi64::check(p, t, w.map(|v| v as i64)), _ => pu64::check(p, t, w.map(|v| v as u64)) }
}
fn all_ints(p: u8, t: &str) { ints(choice("type", 8), p, t) }
const PLACES: u8 = 6;
/// the decimal form of a number near a type's limit with the last two digits symbolic characters
fn edge(base: &str, n: usize) -> String { let mut s = base[..base.len() - n].to_string(); s.push_str(&vis::<2>("tail")[..n]); s }
harnesses! {
  fn q_words() { let w = word("w"); let p = choice("place", PLACES); let k = choice("type", 9); if k == 8 { pb::check(p, &w, boolean(&w)) } else { ints(k, p, &w) } }
  fn q_numbers() { let n = number("n"); let t = cat!(if flag("minus") { "-" } else { "" }, dec(n as i128)); let p = choice("place", PLACES); let k = choice("type", 9); if k == 8 { pb::check(p, &t, boolean(&t)) } else { ints(k, p, &t) } }
  fn q_int2() { let t = upto::<2>("t"); all_ints(choice("place", PLACES), &t) }
  fn q_byte3() { let t = vis::<3>("t"); let p = choice("place", PLACES); ints(choice("type", 2), p, &t) }
  fn q_byte4() { let b = vis::<3>("t"); let t = cat!(pick("lead", &["-", "+", "0", "1"]), b); ints(0, choice("place", 3) * 2, &t) }
  fn q_limits() { let p = choice("place", PLACES); let k = choice("type", 8); let t = match k { 0 => edge(pick("b", &["127", "-128", "00127", "-0128"]), 2), 1 => edge(pick("b", &["255", "+255", "-0", "0255"]), 2), 2 => edge(pick("b", &["32767", "-32768", "327680"]), 2), 3 => edge(pick("b", &["65535", "655350", "-65535"]), 2), 4 => edge(pick("b", &["2147483647", "-2147483648", "21474836470"]), 2), 5 => edge(pick("b", &["4294967295", "42949672950"]), 2), 6 => edge(pick("b", &["9223372036854775807", "-9223372036854775808", "92233720368547758070"]), 2), _ => edge(pick("b", &["18446744073709551615", "184467440737095516150"]), 2) }; ints(k, p, &t) }
  fn q_bool1() { let t = upto::<2>("t"); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn q_bool3() { let t = vis::<3>("t"); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn q_bool4() { let t = name::<4>("t"); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn q_bool5() { let t = name::<5>("t"); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn q_bool6() { let (a, b) = pick("w", &[("tr", "e"), ("", "rue"), ("tru", ""), ("fals", ""), ("", "alse"), ("true", ""), ("false", ""), ("1", ""), ("0", "")]); let t = cat!(a, vis::<1>("x"), b); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn q_float1() { let t = upto::<1>("t"); let p = choice("place", PLACES); if flag("f64") { pf64::check(p, &t, float2(&t)) } else { pf32::check(p, &t, float2(&t).map(|v| v as f32)) } }
  fn q_float2() { let t = vis::<2>("t"); let p = choice("place", PLACES); pf64::check(p, &t, float2(&t)) }
  fn q_float32() { let t = vis::<2>("t"); let p = choice("place", 3); pf32::check(p * 2, &t, float2(&t).map(|v| v as f32)) }
  fn q_float_forms() { let (l, v) = pick("l", &[("1e2", Some(100.0)), ("1E2", Some(100.0)), ("-1.5e-1", Some(-0.15)), ("INF", Some(f64::INFINITY)), ("-INF", Some(f64::NEG_INFINITY)), ("inf", Some(f64::INFINITY)), ("1e400", Some(f64::INFINITY)), ("1e-400", Some(0.0)), ("1e", None), ("e1", None), (".", None), ("1..2", None), ("1,5", None), ("0x1", None), ("1f", None), ("--1", None), ("1-", None), ("1_0", None), ("i", None), ("1 2", None), ("9007199254740993", Some(9007199254740992.0)), ("2.2250738585072011e-308", Some(2.225073858507201e-308)), ("0.1", Some(0.1)), ("00.10", Some(0.1)), ("-0", Some(0.0))]); pf64::check(choice("place", PLACES), l, v) }
  fn q_float_hard32() { let (l, b) = pick("l", H32); pf32::check(choice("place", PLACES), l, Some(f32::from_bits(b))) }
  fn q_float_hard64() { let (l, b) = pick("l", H64); pf64::check(choice("place", PLACES), l, Some(f64::from_bits(b))) }
  fn q_float_tail() { let (a, good) = pick("l", &[("1.5", "0123456789"), ("1e1", "0123456789"), ("in", "fF")]); let x = vis::<1>("x"); let t = cat!(a, x); let p = choice("place", PLACES); let g = good.contains(&x[..]); let zero = a == "1.5"; if !g && !(zero && (x == "e" || x == "E")) { pf64::check(p, &t, None) } else if a == "in" { pf64::check(p, &t, Some(f64::INFINITY)) } else if g && zero { let k = concretize(x.as_bytes()[0] as u64) - 48; pf64::check(p, &t, Some([1.50, 1.51, 1.52, 1.53, 1.54, 1.55, 1.56, 1.57, 1.58, 1.59][k as usize])) } else { cover(0) } }
  fn q_nan() { for d in ["<El><v>NaN</v></El>", "<El><v>nan</v></El>"] { match de::<pf64::El>(d) { Ok(v) => check!(v.v.is_nan(), "value read differs from the document"), Err(_) => violation("a document of this type was refused") } } cover(0) }
  fn q_inner_blank() { // blanks around an element's text are layout; inside it they are not
    let w = pick("w", &[" ", "\t", "\n", "  "]); let a = digit("a"); let b = digit("b"); let (a, av) = (a.0.to_string(), a.1); let b = b.0.to_string(); match choice("k", 3) { 0 => { let d = cat!("<El><v>", w, a, w, "</v></El>"); reads(&d, &pu8::El { v: av }) } 1 => refused::<pu8::El>(&cat!("<El><v>", a, w, b, "</v></El>")), _ => refused::<pu8::At>(&cat!("<At v=\"", a, " ", b, "\"/>")) } }
  fn q_markup_inside() { // a literal split by markup is not a literal
    let x = pick("x", &["<y/>", "<y>2</y>", "<v>2</v>"]); let a = digit("a").0.to_string(); match choice("p", 3) { 0 => refused::<pu8::El>(&cat!("<El><v>", a, x, "</v></El>")), 1 => refused::<pu8::El>(&cat!("<El><v>", x, a, "</v></El>")), _ => reads(&cat!("<Eo><v>", a, x, "</v><w>8</w></Eo>"), &pu8::Eo { v: None, w: Some(8) }) } }
  fn q_coded() { // entities, references and CDATA denote their characters
    let (d, v) = digit("d"); let c = d.to_string(); let t = pick("f", &["<![CDATA[#]]>", "&#x3#;", "&#05~;", "#<!-- c -->", "<!-- c -->#"]); let txt = if t.contains('~') { let k = concretize(v as u64) as usize; t.replace('5', "").replace('~', ["48", "49", "50", "51", "52", "53", "54", "55", "56", "57"][k]) } else { let i = t.find('#').unwrap(); let i = if t.starts_with('&') { 4 } else { i }; cat!(t[..i], c, t[i + 1..]) }; reads(&cat!("<El><v>", txt, "</v></El>"), &pu8::El { v }) }
  fn q_list_u8() { let a = upto::<2>("a"); let b = vis::<1>("b"); let w = pick("w", &[" ", "  ", "\t"]); let d = cat!("<Av v=\"", esca(&a), w, esca(&b), "\"/>"); let mut l = vec![]; let mut ok = true; if !a.is_empty() { match int(&a, "", "255") { Some(v) => l.push(v as u8), None => ok = false } } match int(&b, "", "255") { Some(v) => l.push(v as u8), None => ok = false } if ok { reads(&d, &lu8::Av { v: l }) } else { refused::<lu8::Av>(&d) } }
  fn q_list_i32() { let a = vis::<1>("a"); let b = vis::<2>("b"); let d = cat!("<Av v=\" ", esca(&a), " ", esca(&b), " 2147483647 \"/>"); match (int(&a, "9", "9"), int(&b, "99", "99")) { (Some(x), Some(y)) => reads(&d, &li32::Av { v: vec![x as i32, y as i32, i32::MAX] }), _ => refused::<li32::Av>(&d) } }
  fn q_list_bool() { let a = vis::<1>("a"); let d = cat!("<Av v=\"true ", esca(&a), " false\"/>"); match boolean(&a) { Some(x) => reads(&d, &lb::Av { v: vec![true, x, false] }), None => refused::<lb::Av>(&d) } }
  fn q_nonascii() { let u = uni("u", 2); let (a, b) = pick("w", &[("", ""), ("1", ""), ("", "1"), ("tru", "")]); let t = cat!(a, u, b); let p = choice("place", PLACES); match choice("k", 3) { 0 => pi32::check(p, &t, None), 1 => pb::check(p, &t, None), _ => pf64::check(p, &t, None) } }
  fn t_bool4() { let t = vis::<4>("t"); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn t_bool5() { let t = vis::<5>("t"); pb::check(choice("place", PLACES), &t, boolean(&t)) }
  fn t_int3() { let t = vis::<3>("t"); all_ints(choice("place", PLACES), &t) }
  fn t_byte4() { let t = vis::<4>("t"); ints(0, choice("place", PLACES), &t) }
  fn t_short5() { let t = vis::<5>("t"); ints(3, choice("place", 3), &t) }
}
