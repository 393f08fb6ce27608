use std::fmt;
use std::str::FromStr;
use util::*;
use yaserde::{DefaultYaSerde, HexBinaryYaSerde, PrimitiveYaSerde};
#[derive(PrimitiveYaSerde, PartialEq, Debug, Clone, Default)]
struct Wu(u8);
#[derive(PrimitiveYaSerde, PartialEq, Debug, Clone, Default)]
struct Wi(i64);
#[derive(PrimitiveYaSerde, PartialEq, Debug, Clone, Default)]
struct Wb(bool);
#[derive(PrimitiveYaSerde, PartialEq, Debug, Clone, Default)]
struct Wf(f64);
#[derive(PrimitiveYaSerde, PartialEq, Debug, Clone, Default)]
struct Ws(String);
#[derive(PrimitiveYaSerde, PartialEq, Debug, Clone, Default)]
struct Wn(Wu);
#[derive(HexBinaryYaSerde, PartialEq, Debug, Clone, Default)]
struct H8(u8);
impl H8 { fn from_bits(b: u8) -> Option<Self> { if b & 0x40 == 0 { Some(H8(b)) } else { None } } }
#[derive(HexBinaryYaSerde, PartialEq, Debug, Clone, Default)]
struct H32(u32);
impl H32 { fn from_bits(b: u32) -> Option<Self> { Some(H32(b)) } }
#[derive(HexBinaryYaSerde, PartialEq, Debug, Clone, Default)]
struct H64(u64);
impl H64 { fn from_bits(b: u64) -> Option<Self> { Some(H64(b)) } }
/// Two characters around a comma: its own textual form, with characters that must be escaped.
#[derive(DefaultYaSerde, PartialEq, Debug, Clone, Default)]
struct Two(char, char);
impl fmt::Display for Two { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}&{}", self.0, self.1) } }
impl FromStr for Two { type Err = String; fn from_str(s: &str) -> Result<Self, String> { let v: Vec<char> = s.chars().collect(); if v.len() == 3 && v[1] == '&' { Ok(Two(v[0], v[2])) } else { Err("not two".into()) } } }
#[derive(DefaultYaSerde, PartialEq, Debug, Clone, Default)]
enum Dir { #[default] Up, Down }
impl fmt::Display for Dir { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(match self { Dir::Up => "up", Dir::Down => "down" }) } }
impl FromStr for Dir { type Err = String; fn from_str(s: &str) -> Result<Self, String> { match s { "up" => Ok(Dir::Up), "down" => Ok(Dir::Down), _ => Err("no".into()) } } }
/// Every place the wrapper may stand in.
macro_rules! place { ($m:ident, $t:ident) => { mod $m { use super::$t; use util::*;
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct F { pub a: Option<u8>, pub w: $t, pub z: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct O { pub w: Option<$t>, pub z: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct V { pub w: Vec<$t>, pub z: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct A { #[yaserde(attribute = true)] pub w: $t, pub z: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct Ao { #[yaserde(attribute = true)] pub w: Option<$t>, pub z: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)] pub enum E { #[default] N, W($t), O(Option<$t>), V(Vec<$t>) }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct H { pub e: E, pub z: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct L { #[yaserde(flatten = true)] pub f: O2, pub y: Option<u8> }
  #[derive(YaSerialize, YaDeserialize, PartialEq, Debug)] pub struct O2 { pub w: Option<$t>, pub v: Vec<$t> }
  const N: &str = stringify!($t);
  const Z: &str = "<z>8</z>";
  fn w(x: &str) -> String { cat!("<w>", x, "</w>") }
  /// the value is written as exactly this text (already escaped) in each place, and read back
  pub fn both(place: u8, v: $t, x: &str) {
    let z = Some(8u8);
    match place {
      0 => { let d = doc(&cat!("<", N, ">", x, "</", N, ">")); writes(&v, &d); reads(&d, &v); check!(yaserde::ser::to_string_content(&v) == Ok(x.to_string()), "the content alone is not the textual form") }
      1 => { let d = doc(&cat!("<F><a>7</a>", w(x), Z, "</F>")); let v = F { a: Some(7), w: v, z }; writes(&v, &d); reads(&d, &v) }
      2 => { let d = doc(&cat!("<O>", w(x), Z, "</O>")); let v = O { w: Some(v), z }; writes(&v, &d); reads(&d, &v) }
      3 => { let d = doc(&cat!("<V>", w(x), w(x), Z, "</V>")); let v = V { w: vec![v.clone(), v], z }; writes(&v, &d); reads(&d, &v) }
      4 => { let d = doc(&cat!("<H><e><W>", x, "</W></e>", Z, "</H>")); let v = H { e: E::W(v), z }; writes(&v, &d); reads(&d, &v) }
      5 => { let d = doc(&cat!("<H><e><O>", x, "</O></e>", Z, "</H>")); let v = H { e: E::O(Some(v)), z }; writes(&v, &d); reads(&d, &v) }
      6 => { let d = doc(&cat!("<H><e><V>", x, "</V><V>", x, "</V></e>", Z, "</H>")); let v = H { e: E::V(vec![v.clone(), v]), z }; writes(&v, &d); reads(&d, &v) }
      7 => { let d = doc(&cat!("<L>", w(x), "<v>", x, "</v><v>", x, "</v><y>8</y></L>")); let v = L { f: O2 { w: Some(v.clone()), v: vec![v.clone(), v] }, y: z }; writes(&v, &d); reads(&d, &v) }
      8 => rt(A { w: v, z }),
      9 => rt(Ao { w: Some(v), z }),
      _ => { rt(O { w: None, z }); rt(V { w: vec![], z }); rt(Ao { w: None, z }); rt(L { f: O2 { w: None, v: vec![v] }, y: z }) }
    }
  }
  /// text x (escaped) in each place is read as this value, or refused
  pub fn text(place: u8, x: &str, v: Option<$t>) {
    let z = Some(8u8);
    match place {
      0 => { let d = cat!("<", N, ">", x, "</", N, ">"); match v { Some(v) => reads(&d, &v), None => refused::<$t>(&d) } }
      1 => { let d = cat!("<F>", w(x), Z, "</F>"); match v { Some(w) => reads(&d, &F { a: None, w, z }), None => refused::<F>(&d) } }
      2 => { let d = cat!("<O>", w(x), Z, "</O>"); match v { Some(w) => reads(&d, &O { w: Some(w), z }), None => refused::<O>(&d) } }
      3 => { let d = cat!("<V>", w(x), Z, "</V>"); match v { Some(w) => reads(&d, &V { w: vec![w], z }), None => refused::<V>(&d) } }
      4 => { let d = cat!("<H><e><W>", x, "</W></e>", Z, "</H>"); match v { Some(w) => reads(&d, &H { e: E::W(w), z }), None => refused::<H>(&d) } }
      _ => { let d = cat!("<H><e><V>", x, "</V></e>", Z, "</H>"); match v { Some(w) => reads(&d, &H { e: E::V(vec![w]), z }), None => refused::<H>(&d) } }
    }
  }
} } }
place!(wu, Wu); place!(wi, Wi); place!(wb, Wb); place!(wf, Wf); place!(ws, Ws); place!(wn, Wn); place!(h8, H8); place!(h32, H32); place!(h64, H64); place!(two, Two); place!(dir, Dir);
fn hexd(c: u8) -> Option<u64> { match c { b'0'..=b'9' => Some((c - b'0') as u64), b'a'..=b'f' => Some((c - b'a') as u64 + 10), b'A'..=b'F' => Some((c - b'A') as u64 + 10), _ => None } }
fn hex(v: u64) -> String { let mut d = vec![]; let mut n = v; loop { let k = (n % 16) as u8; d.push(if k < 10 { b'0' + k } else { b'A' + k - 10 }); n /= 16; if n == 0 { break } } if d.len() < 2 { d.push(b'0') } d.reverse(); String::from_utf8(d).unwrap() }
fn unhex(s: &str) -> Option<u64> { if s.is_empty() { return None } let mut v = 0u64; for c in s.bytes() { v = v.wrapping_mul(16).wrapping_add(hexd(c)?) } Some(v) }
const P: u8 = 11; const T: u8 = 6;
harnesses! {
  fn q_words() { let w = word("w"); ws::both(choice("p", P), Ws(w.clone()), &esc(&w)) }
  fn q_numbers() { let n = number("n"); let p = choice("p", P); if flag("neg") { let v = (n as i64).wrapping_neg(); wi::both(p, Wi(v), &dec(v as i128)) } else { wu::both(p, Wu(n as u8), &dec(n as u8 as i128)) } }
  fn q_u8() { let v = u8_("v"); wu::both(choice("p", P), Wu(v), &dec(v as i128)) }
  fn q_i64() { let v = i64_("v"); wi::both(choice("p", P), Wi(v), &dec(v as i128)) }
  fn q_bool() { let v = flag("v"); wb::both(choice("p", P), Wb(v), if v { "true" } else { "false" }) }
  fn q_f64() { let v = f64_("v"); wf::both(choice("p", P), Wf(v), &v.to_string()) }
  fn q_str1() { let p = choice("p", P); let t = if p == 10 { "x".to_string() } else { vis::<1>("t") }; ws::both(p, Ws(t.clone()), &esc(&t)) }
  fn q_str3() { let t = txt::<3>("t"); ws::both(choice("p", 4), Ws(t.clone()), &esc(&t)) }
  fn q_str_empty() { ws::both(choice("p", P), Ws(String::new()), "") }
  fn q_str_uni() { let t = uni("t", choice("l", 3) + 2); ws::both(choice("p", P), Ws(t.clone()), &t) }
  fn q_nested() { let v = u8_("v"); wn::both(choice("p", P), Wn(Wu(v)), &dec(v as i128)) }
  fn q_hex8() { let v = byte("v"); assume(v & 0x40 == 0); let v = concretize(v as u64); h8::both(choice("p", P), H8(v as u8), &hex(v)) }
  fn q_hex32() { let v = u32_("v"); let c = concretize(v as u64); h32::both(choice("p", P), H32(c as u32), &hex(c)) }
  fn q_hex64() { let v = u64_("v"); let c = concretize(v); h64::both(choice("p", P), H64(c), &hex(c)) }
  fn q_two() { let t = vis::<2>("t"); let c: Vec<char> = t.chars().collect(); let x = cat!(t[..1], "&", t[1..]); two::both(choice("p", 4), Two(c[0], c[1]), &esc(&x)) }
  fn q_two1() { let t = vis::<1>("t"); let c = t.chars().next().unwrap(); let x = cat!(t, "&x"); two::both(choice("p", P), Two(c, 'x'), &esc(&x)) }
  fn q_dir() { let d = flag("d"); dir::both(choice("p", P), if d { Dir::Down } else { Dir::Up }, if d { "down" } else { "up" }) }
  fn q_text_u8() { let t = upto::<2>("t"); let b = t.as_bytes(); let v = match b { [a] => hexd(*a).filter(|v| *v < 10), [b'+', a] => hexd(*a).filter(|v| *v < 10), [a, c] => match (hexd(*a), hexd(*c)) { (Some(x), Some(y)) if x < 10 && y < 10 => Some(x * 10 + y), _ => None }, _ => None }; wu::text(choice("p", T), &esc(&t), v.map(|v| Wu(v as u8))) }
  fn q_text_hex8() { let t = upto::<2>("t"); if t.starts_with('+') { cover(0); return } let v = unhex(&t).filter(|v| v & 0x40 == 0); h8::text(choice("p", T), &esc(&t), v.map(|v| H8(v as u8))) }
  fn q_text_hex8_long() { let t = vis::<3>("t"); if t.starts_with('+') { cover(0); return } let v = unhex(&t).filter(|v| *v < 256 && v & 0x40 == 0); h8::text(choice("p", 2), &esc(&t), v.map(|v| H8(v as u8))) }
  fn q_text_hex32() { let (a, n) = pick("a", &[("", 2), ("FFFFFF", 2), ("FFFFFFF", 2), ("0000000", 2), ("1234567", 1), ("ffffffffffffffff", 1), ("deadbee", 1)]); let t = vis::<2>("t"); let t = cat!(a, t[..n]); if t.starts_with('+') { cover(0); return } let v = unhex(&t).filter(|v| *v <= u32::MAX as u64 && (t.len() < 16)); h32::text(choice("p", 2), &esc(&t), v.map(|v| H32(v as u32))) }
  fn q_text_two() { let t = vis::<3>("t"); let c: Vec<char> = t.chars().collect(); two::text(choice("p", 2), &esc(&t), if c[1] == '&' { Some(Two(c[0], c[2])) } else { None }) }
  fn q_text_dir() { let t = name::<2>("t"); dir::text(choice("p", T), &t, if t == "up" { Some(Dir::Up) } else { None }) }
  fn q_text_dir4() { let t = name::<4>("t"); dir::text(choice("p", T), &t, if t == "down" { Some(Dir::Down) } else { None }) }
  fn q_coded() { // entities, references, CDATA and comments around the characters
    let c = name::<1>("c"); let x = pick("x", &["&amp;#", "#&lt;", "<![CDATA[#]]>", "a<![CDATA[<#]]>b", "<!-- c -->#", "#<!-- c -->b", "&#x41;#", "&quot;#&apos;"]); let i = match x { "&#x41;#" => 6, _ => x.find('#').unwrap() }; let d = cat!(x[..i], c, x[i + 1..]); let t = x.replace("&amp;", "&").replace("&lt;", "<").replace("<![CDATA[", "").replace("]]>", "").replace("<!-- c -->", "").replace("&#x41;", "A").replace("&quot;", "\"").replace("&apos;", "'"); let j = t.find('#').unwrap(); let t = cat!(t[..j], c, t[j + 1..]); ws::text(choice("p", T), &d, Some(Ws(t))) }
  fn q_pi() { let a = name::<1>("a"); let b = name::<1>("b"); ws::text(choice("p", T), &cat!(a, "<?q r?>", b), Some(Ws(cat!(a, b)))) }
  fn q_children() { // an element inside the text: the wrapper never takes part of it, and a neighbour never takes it
    let n = name::<1>("n"); let (d, _) = digit("d"); let d = d.to_string(); let x = pick("x", &["1<#>7</#>", "<#>7</#>1", "<#>7</#>", "1<#/>", "<#/>"]); let x = x.replace('#', "\u{1}"); let mut y = String::new(); for c in x.chars() { if c == '\u{1}' { y.push_str(&n) } else { y.push(c) } } let doc = cat!("<F><w>", y, "</w><z>", d, "</z></F>"); observe(doc.as_bytes());
    match de::<wu::F>(&doc) { Ok(v) => check!(v.a.is_none() && v.z == Some(d.as_bytes()[0] - b'0') && v.w == Wu(1), "content of the element was taken by a neighbour"), Err(_) => {} } cover(0) }
  fn q_siblings() { let v = u8_("v"); let t = vis::<1>("t"); let d = cat!("<V><w>", dec(v as i128), "</w><x>", esc(&t), "</x><w>", dec(v as i128), "</w><y/><z>8</z></V>"); reads(&d, &wu::V { w: vec![Wu(v), Wu(v)], z: Some(8) }) }
}
