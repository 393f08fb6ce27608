use util::*;
use yaserde::__xml::{reader::XmlEvent as Rd, writer::XmlEvent as Wr};
use yaserde::{de::Deserializer, ser::Serializer};
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct S { #[yaserde(attribute = true)] a: Option<String>, #[yaserde(attribute = true)] n: Vec<u8>, s: String, o: Option<String>, v: Vec<String>, #[yaserde(cdata = true)] c: String, w: Ws, #[yaserde(flatten = true)] f: F, p: Option<P>, e: E }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct F { g: Option<String>, h: Vec<P> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct P { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone, Default)]
enum E { #[default] U, B(String), L(Vec<P>) }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug, Clone)]
struct Ws(String);
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct Num { a: u8, b: Vec<i64>, c: Option<f64>, #[yaserde(attribute = true)] d: Option<i16>, t: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct Lists { #[yaserde(attribute = true)] n: Vec<u8>, a: Vec<u8>, s: Vec<String>, p: Vec<P>, e: Vec<E>, w: Vec<Ws>, o: Vec<One>, #[yaserde(flatten = true)] f: Lf, z: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct Lf { q: Vec<u8>, r: Vec<One> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct One { x: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct Tree { #[yaserde(attribute = true)] n: u8, k: Vec<Tree>, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone, Default)]
enum Chain { #[default] End, #[yaserde(rename = "More")] More(Link) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
struct Link { c: Vec<Chain>, v: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Clone)]
#[yaserde(prefix = "n", namespaces = { "n" = "urn:n" })]
struct Ns { #[yaserde(prefix = "n")] a: u8, b: Option<u8> }
/// lengths around which buffers and counters of usual widths end
const LONG: &[usize] = &[2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32767, 32768, 65535, 65536, 65537];
const LONGQ: &[usize] = &[1025, 2049, 4097, 8193, 16385, 32769, 65537];
const MANY: &[usize] = &[127, 128, 129, 199, 201, 255, 256, 257, 499, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025];
fn s0() -> S { S { a: None, n: vec![], s: "s".into(), o: None, v: vec![], c: "c".into(), w: Ws("w".into()), f: F { g: None, h: vec![] }, p: None, e: E::U } }
fn p(t: &str) -> P { P { k: None, t: t.into() } }
/// a text of `n` characters, three of them symbolic
fn long(n: usize) -> String { let (a, b, c) = (digit("a").0.to_string(), vis::<1>("b"), digit("c").0.to_string()); let x = |n: usize| "x".repeat(n); cat!(a, x(n / 2 - 1), b, x(n - n / 2 - 2), c) }
/// the same, of multi-byte characters that don't fit a power of two evenly
fn wide(n: usize) -> String { let u = pick("u", &["\u{e9}", "\u{20ac}", "\u{10348}"]); let (a, c) = (digit("a").0.to_string(), vis::<1>("c")); cat!(a, u.repeat(n / u.len()), c) }
fn at(w: u8, t: String) -> S { let mut s = s0(); match w { 0 => s.a = Some(t), 1 => s.s = t, 2 => s.o = Some(t), 3 => s.v = vec!["i".into(), t, "j".into()], 4 => s.c = t, 5 => s.w = Ws(t), 6 => s.f.g = Some(t), 7 => s.f.h = vec![p("h"), p(&t)], 8 => s.p = Some(P { k: Some(1), t }), 9 => s.e = E::B(t), _ => s.e = E::L(vec![p(&t), p("l")]) } s }
/// written in full, and read back
fn full(v: &S, t: &str) { let s = ser(v); check!(s.contains(t), "a long text is not written in full"); match de::<S>(&s) { Ok(w) => check!(w == *v, "a long value changes when it is written and read"), Err(_) => violation("a long value can't be read back") } cover(0) }
fn same<T: YaSerialize + YaDeserialize + PartialEq>(v: &T, x: &str) { let s = ser(v); check!(s == doc(x), "a value with many parts is not written in full"); match de::<T>(&s) { Ok(w) => check!(w == *v, "a value with many parts changes when it is written and read"), Err(_) => violation("a value with many parts can't be read back") } cover(0) }
fn is<T: YaDeserialize + PartialEq>(x: &str, v: T) { match de::<T>(x) { Ok(w) => check!(w == v, "a big document is read differently"), Err(_) => violation("a big document is refused") } cover(0) }
fn rep(n: usize, f: impl Fn(usize) -> String) -> String { let mut s = String::new(); for i in 0..n { s.push_str(&f(i)) } s }
const D: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
fn dg(i: usize) -> &'static str { D[i % 10] }
harnesses! {
  fn q_sizes() { // sizes about every number the source mentions
    let n = size("n"); let (d, v) = digit("d"); let d = d.to_string(); match choice("k", 6) { 0 => { let t = cat!("x".repeat(n), d); full(&at(choice("w", 11), t.clone()), &t) } 1 => same(&Num { a: v, b: vec![5; n], c: None, d: None, t: None }, &cat!("<Num>", el("a", &d), "<b>5</b>".repeat(n), "</Num>")), 2 => is(&cat!("<Num>", "<u>9</u>".repeat(n), "<a>", d, "</a></Num>"), Num { a: v, b: vec![], c: None, d: None, t: None }), 3 => is(&cat!("<Num", rep(n, |i| cat!(" u", dec(i as i128), "=\"1\"")), " d=\"7\"><a>", d, "</a></Num>"), Num { a: v, b: vec![], c: None, d: Some(7), t: None }), 4 => is(&cat!("<Num>", "<u>".repeat(n), "<a>9</a>", "</u>".repeat(n), "<a>", d, "</a></Num>"), Num { a: if n == 0 { v } else { v }, b: vec![], c: None, d: None, t: None }), _ => is(&cat!("<Num><a>", "0".repeat(n), d, "</a></Num>"), Num { a: v, b: vec![], c: None, d: None, t: None }) } }
  // ---- long texts
  fn q_text() { let t = long(pick("n", LONGQ)); assume(!t.contains('<') && !t.contains('&') && !t.contains('"') && !t.contains('\'') && !t.contains('>')); let w = choice("w", 11); full(&at(w, t.clone()), &t) }
  fn t_text() { let t = long(pick("n", LONG)); assume(!t.contains('<') && !t.contains('&') && !t.contains('"') && !t.contains('\'') && !t.contains('>')); let w = choice("w", 11); full(&at(w, t.clone()), &t) }
  fn q_text_coded() { let n = pick("n", &[1025usize, 4097, 16385]); let w = choice("w", 11); let c = vis::<1>("c"); let t = cat!(pick("e", &["<", "&", ">", "\"", "]]>", "a<b"]).repeat(n), c); let s = at(w, t.clone()); let x = ser(&s); match de::<S>(&x) { Ok(v) => check!(v == s, "a long value changes when it is written and read"), Err(_) => violation("a long value can't be read back") } cover(0) }
  fn q_text_wide() { let t = wide(pick("n", &[4097usize, 8193, 65536])); assume(!t.contains('<') && !t.contains('&') && !t.contains('"') && !t.contains('\'') && !t.contains('>')); let w = choice("w", 11); full(&at(w, t.clone()), &t) }
  fn q_pieces() { // one text in many pieces
    let n = pick("n", MANY); let c = vis::<1>("c"); let (x, t) = pick("piece", &[("&amp;", "&"), ("&#65;", "A"), ("<![CDATA[a]]>", "a"), ("<!-- c -->", ""), ("a&lt;<![CDATA[>]]>", "a<>")]);
    let (x, t) = (cat!(x.repeat(n), esc(&c)), cat!(t.repeat(n), c));
    match choice("at", 4) { 0 => is(&cat!("<S><s>", x, "</s><c>c</c><w>w</w><e>U</e></S>"), S { s: t, ..s0() }), 1 => is(&cat!("<P k='1'>", x, "</P>"), P { k: Some(1), t }), 2 => is(&cat!("<E><B>", x, "</B></E>"), E::B(t)), _ => is(&cat!("<S><s>s</s><v>", x, "</v><c>c</c><w>w</w><e>U</e></S>"), S { v: vec![t], ..s0() }) }
  }
  fn q_blank() { // white space, comments and instructions of any length between elements
    let n = pick("n", &[1025usize, 4097, 65537]); let b = match choice("b", 4) { 0 => " ".repeat(n), 1 => "\n".repeat(n), 2 => cat!("<!--", "x ".repeat(n), "-->"), _ => cat!("<?p ", "x ".repeat(n), "?>") }; let (d, v) = digit("d"); let d = d.to_string();
    let x = match choice("at", 5) { 0 => cat!(b, "<Num d='1'><a>", d, "</a></Num>"), 1 => cat!("<Num d='1'>", b, "<a>", d, "</a></Num>"), 2 => cat!("<Num d='1'><a>", d, "</a>", b, "</Num>"), 3 => cat!("<Num d='1'><u>", b, "</u><a>", d, "</a></Num>"), _ => cat!("<Num d='1'><a>", d, "</a></Num>", b) };
    is(&x, Num { a: v, b: vec![], c: None, d: Some(1), t: None })
  }
  fn q_digits() { // leading and trailing zeros
    let n = pick("n", &[127usize, 255, 256, 1025, 4097]); let z = "0".repeat(n); let (d, v) = digit("d"); let d = d.to_string();
    is(&cat!("<Num d='-", z, d, "'><a>", z, d, "</a><b>-", z, d, "</b><b>", z, "9223372036854775807</b><c>", z, d, ".5", z, "</c></Num>"), Num { a: v, b: vec![-(v as i64), i64::MAX], c: Some(v as f64 + 0.5), d: Some(-(v as i16)), t: None })
  }
  fn q_names() { // undeclared names and values of any length
    let n = pick("n", &[255usize, 256, 1025, 4097, 65537]); let t = "a".repeat(n); let (d, v) = digit("d"); let d = d.to_string();
    let x = match choice("at", 5) { 0 => cat!("<", t, "/>"), 1 => cat!("<u ", t, "='1'/>"), 2 => cat!("<u k='", t, "'/>"), 3 => cat!("<u>", t, "</u>"), _ => cat!("<u xmlns:", t, "='", t, "'><", t, ":a>7</", t, ":a></u>") };
    is(&cat!("<Num>", x, "<a>", d, "</a></Num>"), Num { a: v, b: vec![], c: None, d: None, t: None })
  }
  fn q_prefix() { let n = pick("n", &[255usize, 256, 1025, 4097]); let t = "p".repeat(n); let (d, v) = digit("d"); is(&cat!("<", t, ":Ns xmlns:", t, "='urn:n'><", t, ":a>", d.to_string(), "</", t, ":a><b>2</b></", t, ":Ns>"), Ns { a: v, b: Some(2) }) }
  // ---- many parts
  fn q_many() {
    let n = pick("n", MANY); let (c, d) = (vis::<1>("c"), digit("d")); let (cs, (dc, dv)) = (c.clone(), d); let ds = dc.to_string();
    let last = |i: usize| i + 1 == n; let mut l = Lists { n: vec![], a: vec![], s: vec![], p: vec![], e: vec![], w: vec![], o: vec![], f: Lf { q: vec![], r: vec![] }, z: 9 };
    let num = |i: usize| if last(i) { dv } else { (i % 10) as u8 }; let nx = |i: usize| if last(i) { ds.clone() } else { dg(i).to_string() }; let tx = |i: usize| if last(i) { cs.clone() } else { dg(i).to_string() };
    let x = match choice("w", 9) {
      0 => { l.n = (0..n).map(num).collect(); let j = (0..n).map(nx).collect::<Vec<_>>().join(" "); cat!("<Lists n=\"", j, "\"><z>9</z></Lists>") }
      1 => { l.a = (0..n).map(num).collect(); cat!("<Lists>", rep(n, |i| el("a", &nx(i))), "<z>9</z></Lists>") }
      2 => { l.s = (0..n).map(tx).collect(); cat!("<Lists>", rep(n, |i| el("s", &esc(&tx(i)))), "<z>9</z></Lists>") }
      3 => { l.p = (0..n).map(|i| P { k: Some(num(i)), t: tx(i) }).collect(); cat!("<Lists>", rep(n, |i| cat!("<p k=\"", nx(i), "\">", esc(&tx(i)), "</p>")), "<z>9</z></Lists>") }
      4 => { l.e = (0..n).map(|i| if i % 2 == 0 { E::U } else { E::B(tx(i)) }).collect(); cat!("<Lists>", rep(n, |i| el("e", &if i % 2 == 0 { "U".into() } else { el("B", &esc(&tx(i))) })), "<z>9</z></Lists>") }
      5 => { l.w = (0..n).map(|i| Ws(tx(i))).collect(); cat!("<Lists>", rep(n, |i| el("w", &esc(&tx(i)))), "<z>9</z></Lists>") }
      6 => { l.o = (0..n).map(|i| One { x: Some(num(i)) }).collect(); cat!("<Lists>", rep(n, |i| el("o", &el("x", &nx(i)))), "<z>9</z></Lists>") }
      7 => { l.f.q = (0..n).map(num).collect(); cat!("<Lists>", rep(n, |i| el("q", &nx(i))), "<z>9</z></Lists>") }
      _ => { l.f.r = (0..n).map(|i| One { x: if last(i) { Some(dv) } else { None } }).collect(); cat!("<Lists>", rep(n, |i| if last(i) { el("r", &el("x", &ds)) } else { "<r />".into() }), "<z>9</z></Lists>") }
    };
    same(&l, &x)
  }
  fn q_interleaved() { // lists whose items are mixed
    let n = pick("n", &[129usize, 257, 513]); let (d, v) = digit("d"); let d = d.to_string(); let w = |i: usize| if i + 1 == n { v } else { (i % 10) as u8 };
    let x = rep(n, |i| cat!("<a>", w(i).to_string(), "</a><q>", w(i).to_string(), "</q><o><x>", w(i).to_string(), "</x></o><u>", d, "</u><r/>"));
    let a: Vec<u8> = (0..n).map(w).collect(); is(&cat!("<Lists>", x, "<z>1</z></Lists>"), Lists { n: vec![], a: a.clone(), s: vec![], p: vec![], e: vec![], w: vec![], o: a.iter().map(|x| One { x: Some(*x) }).collect(), f: Lf { q: a, r: (0..n).map(|_| One { x: None }).collect() }, z: 1 })
  }
  fn q_repeated() { // a single element given many times, and any number of undeclared ones
    let n = pick("n", MANY); let (d, v) = digit("d"); let d = d.to_string(); let u = pick("u", &["<a>1</a>", "<u/>", "<u><a>1</a></u>", "<u><b>1</b><t>1</t></u>", "<u a='1'/>", "<t>x</t>"]); is(&cat!("<Num>", u.repeat(n), "<a>", d, "</a>", if u.starts_with("<a") { String::new() } else { u.repeat(n) }, "</Num>"), Num { a: v, b: vec![], c: None, d: None, t: None })
  }
  fn q_attrs() { // any number of undeclared attributes
    let n = pick("n", &[8usize, 9, 17, 33, 65, 127, 128, 129, 255, 256, 257]); let (d, v) = digit("d"); let d = d.to_string(); let k = pick("k", &[0usize, 1, 7, 8]); let k = k.min(n - 1); let x = rep(n, |i| cat!(if i == k { cat!(" d='", d, "'") } else { String::new() }, " a", dg(i), dg(i / 10), dg(i / 100), "='1'")); is(&cat!("<Num", x, "><a>1</a></Num>"), Num { a: 1, b: vec![], c: None, d: Some(v as i16), t: None })
  }
  fn q_namespaces() { let n = pick("n", &[8usize, 33, 65, 129]); let (d, v) = digit("d"); let d = d.to_string(); let x = rep(n, |i| cat!(" xmlns:a", dg(i), dg(i / 10), dg(i / 100), "='urn:", dg(i), "'")); is(&cat!("<n:Ns", x, " xmlns:n='urn:n'", "><n:a>", d, "</n:a><a000:a>8</a000:a></n:Ns>"), Ns { a: v, b: None }) }
  // ---- many levels
  fn q_deep() {
    let n = pick("n", &[127usize, 128, 129, 199, 255, 256, 257, 301]); let (d, v) = digit("d"); let d = d.to_string();
    if flag("chain") { let n = n / 2; let mut t = Link { c: vec![Chain::End], v }; for _ in 0..n { t = Link { c: vec![Chain::More(t), Chain::End], v: 1 } } same(&t, &cat!("<Link>", "<c><More>".repeat(n), "<c>End</c><v>", d, "</v>", "</More></c><c>End</c><v>1</v>".repeat(n), "</Link>")) }
    else { let mut t = Tree { n: v, k: vec![], z: Some(v) }; for _ in 0..n { t = Tree { n: 1, k: vec![t], z: None } } same(&t, &cat!("<Tree n=\"1\">", "<k n=\"1\">".repeat(n - 1), "<k n=\"", d, "\"><z>", d, "</z></k>", "</k>".repeat(n - 1), "</Tree>")) }
  }
  fn q_deep_unknown() { // undeclared content of any depth, with declared names inside
    let n = pick("n", &[255usize, 256, 257, 511, 513, 1025, 4097]); let k = pick("k", &["u", "a", "Num"]); let (d, v) = digit("d"); let d = d.to_string(); is(&cat!("<Num><u>", cat!("<", k, ">").repeat(n), "<a>7</a><b>7</b><t>true</t>", cat!("</", k, ">").repeat(n), "<b>6</b><c>1</c></u><a>", d, "</a></Num>"), Num { a: v, b: vec![], c: None, d: None, t: None })
  }
  fn q_wide_unknown() { // undeclared content of many elements and texts, with declared names inside
    let n = pick("n", &[127usize, 255, 256, 257, 513, 1025, 4097]); let k = pick("k", &["<b>7</b>", "t<t>true</t>", "<u/>", "<u><c>1</c></u>"]); let (d, v) = digit("d"); let d = d.to_string();
    let x = cat!("<u>", k.repeat(n), "</u>");
    match choice("at", 3) { 0 => is(&cat!("<Num>", x, "<a>", d, "</a></Num>"), Num { a: v, b: vec![], c: None, d: None, t: None }), 1 => is(&cat!("<Num><a>", d, "</a>", x, "<b>2</b></Num>"), Num { a: v, b: vec![2], c: None, d: None, t: None }), _ => is(&cat!("<Lists><z>", d, "</z>", x, "<q>5</q></Lists>"), Lists { n: vec![], a: vec![], s: vec![], p: vec![], e: vec![], w: vec![], o: vec![], f: Lf { q: vec![5], r: vec![] }, z: v }) }
  }
  // ---- long documents and streams of values
  fn q_cursor() { let n = pick("n", &[127usize, 129, 255, 256, 257, 1025]); let c = vis::<1>("c"); let x = cat!("<r>", "<a><b/></a>t".repeat(n), "<z>", esc(&c), "</z></r>"); let mut r = Deserializer::new_from_reader(x.as_bytes()); check!(r.next_event().is_ok(), "cursor"); for i in 0..n { check!(matches!(r.next_event(), Ok(Rd::StartElement { .. })) && r.depth() == 2, "cursor moved wrongly in a long document"); if i % 2 == 0 { check!(r.next_event().is_ok() && r.depth() == 3 && r.next_event().is_ok() && r.next_event().is_ok(), "cursor moved wrongly in a long document") } else { check!(r.skip_element(|_| ()).is_ok(), "cursor moved wrongly in a long document") } check!(r.depth() == 1 && matches!(r.next_event(), Ok(Rd::Characters(t)) if t == "t"), "cursor moved wrongly in a long document") } check!(r.next_event().is_ok() && matches!(r.next_event(), Ok(Rd::Characters(t)) if t == c) && r.depth() == 2, "cursor moved wrongly in a long document"); cover(0) }
  fn q_stream() { let n = pick("n", &[127usize, 256, 257, 1025]); let (d, v) = digit("d"); let x = cat!("<r>", "<One><x>1</x></One>".repeat(n), "<One><x>", d.to_string(), "</x></One></r>"); let mut r = Deserializer::new_from_reader(x.as_bytes()); check!(r.next_event().is_ok(), "cursor"); for i in 0..n + 1 { match <One as YaDeserialize>::deserialize(&mut r) { Ok(o) => check!(o == One { x: Some(if i == n { v } else { 1 }) }, "a part of a long document is read differently"), Err(_) => violation("a part of a long document is refused") } check!(r.next_event().is_ok() && r.depth() == 1, "cursor moved wrongly in a long document") } cover(0) }
  fn q_written() { let n = pick("n", &[127usize, 256, 257, 1025]); let (d, v) = digit("d"); let mut s = Serializer::new_for_inner(Vec::new()); check!(s.write(Wr::start_element("r")).is_ok(), "write"); for _ in 0..n { check!(One { x: Some(1) }.serialize(&mut s).is_ok(), "write") } check!(One { x: Some(v) }.serialize(&mut s).is_ok() && s.write(Wr::end_element()).is_ok(), "write"); check!(s.into_inner() == cat!("<r>", "<One><x>1</x></One>".repeat(n), "<One><x>", d.to_string(), "</x></One></r>").as_bytes(), "values of a long document are written differently"); cover(0) }
}
