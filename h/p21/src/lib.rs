use util::*;
use yaserde::Visitor;
const KINDS: [&str; 12] = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "str"];
struct Nothing;
impl<'de> Visitor<'de> for Nothing { type Value = u64; }
fn ask<V: Visitor<'static>>(v: V, k: u8, t: &str) -> Result<V::Value, String> { match k { 0 => v.visit_bool(t), 1 => v.visit_i8(t), 2 => v.visit_u8(t), 3 => v.visit_i16(t), 4 => v.visit_u16(t), 5 => v.visit_i32(t), 6 => v.visit_u32(t), 7 => v.visit_i64(t), 8 => v.visit_u64(t), 9 => v.visit_f32(t), 10 => v.visit_f64(t), _ => v.visit_str(t) } }
macro_rules! only { ($($i:literal $n:ident $f:ident),*) => { $( struct $n; impl<'de> Visitor<'de> for $n { type Value = String; fn $f(self, v: &str) -> Result<String, String> { Ok(v.into()) } } )* fn one(own: u8, k: u8, t: &str) -> Result<String, String> { match own { $( $i => ask($n, k, t), )* _ => violation("kind") } } } }
only!(0 B visit_bool, 1 I8 visit_i8, 2 U8 visit_u8, 3 I16 visit_i16, 4 U16 visit_u16, 5 I32 visit_i32, 6 U32 visit_u32, 7 I64 visit_i64, 8 U64 visit_u64, 9 F32 visit_f32, 10 F64 visit_f64, 11 S visit_str);
/// The refusal names the kind of literal.
fn says(e: &str, k: u8) { check!(e.starts_with(&cat!("Unexpected ", KINDS[k as usize], " ")[..]), "the refusal names another kind") }
fn none(k: u8, t: &str) { match ask(Nothing, k, t) { Ok(_) => violation("a value was made up"), Err(e) => says(&e, k) } cover(0) }
fn owned(own: u8, k: u8, t: &str) { match one(own, k, t) { Ok(v) => check!(own == k && v == t, "a value was made up"), Err(e) => { check!(own != k, "a supported literal was refused"); says(&e, k) } } cover(0) }
/// A character of which the last byte is symbolic.
fn last(lead: &[u8]) -> String { let b = byte("u"); assume(b & 0xc0 == 0x80); let mut v = lead.to_vec(); v.push(b); String::from_utf8(v).unwrap() }
fn text() -> String { match choice("text", 7) { 0 => upto::<3>("t"), 1 => any::<2>("t"), 2 => uni("u", 2), 3 => last(&[0xe4, 0xb8]), 4 => last(&[0xf0, 0x9f, 0x98]), 5 => cat!("abcdefgh", last(&[0xe2, 0x80]), "x"), _ => cat!("x".repeat(60), vis::<1>("t"), "\u{7f}\0") } }
harnesses! {
  fn q_words() { let w = word("w"); let o = choice("own", 13); if o == 12 { none(choice("k", 12), &w) } else { owned(o, choice("k", 12), &w) } }
  fn q_none() { let t = text(); none(choice("k", 12), &t) }
  fn q_one() { let t = vis::<2>("t"); let o = choice("own", 12); owned(o, choice("k", 12), &t) }
  fn q_one_text() { let t = text(); let k = choice("k", 12); owned((k + choice("near", 3) + 11) % 12, k, &t) }
  fn q_literals() { let t = pick("t", &["\u{3000}\u{10ffff}", "true", "false", "1", "0", "-1", "1.5", "", "NaN", "<a/>", "\"", "\\"]); let o = choice("own", 12); owned(o, choice("k", 12), t) }
  fn q_ctl() { let b = bytes::<2>("b"); for c in b { assume(c < 128) } let t = String::from_utf8(b.to_vec()).unwrap(); none(choice("k", 12), &t) }
  fn q_quoted() { // the refusal shows the text
    let t = name::<3>("t"); let k = choice("k", 12); match ask(Nothing, k, &t) { Ok(_) => violation("a value was made up"), Err(e) => check!(e == cat!("Unexpected ", KINDS[k as usize], " \"", t, "\""), "the refusal shows another text") } cover(0) }
}
