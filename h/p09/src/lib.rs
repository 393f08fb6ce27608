use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: Option<String>, i: Option<i32>, s: Option<String>, v: Vec<u8>, p: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Part), D(Vec<i16>), E(Option<Fl>), F(Vec<Part>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Opt { a: Option<String>, b: Vec<String>, c: Option<Leaf>, d: Vec<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Ev, z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { t: Option<Tg>, v: Vec<Tg>, e: Option<Ev> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Wr { #[default] N, A(Opt), B(Leaf) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(flatten = true)]
struct Wf { a: Option<u8>, s: Option<Leaf>, #[yaserde(flatten = true)] i: Wi, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(flatten = true)]
struct Wi { w: Option<String>, z: Vec<i16> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hw { #[yaserde(flatten = true)] f: Wf, #[yaserde(flatten = true)] e: Wr, q: Option<Wf>, r: Vec<Wr> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(rename = "dflt", prefix = "d", default_namespace = "d", namespaces = { "d" = "dd" })]
struct Dn { #[yaserde(prefix = "d")] s: Option<String>, #[yaserde(text = true)] t: String }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug)]
struct Pw(u8);
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hp { p: Pw, v: Vec<Pw>, o: Option<Pw> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<String>, #[yaserde(prefix = "n")] p: Vec<NsIn> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n", attribute = true)] k: Option<u8>, #[yaserde(prefix = "n")] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Emp { }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct He { e: Option<Emp>, v: Vec<Emp>, #[yaserde(default = "df")] d: String, #[yaserde(cdata = true)] c: String }
fn df() -> String { "q".into() }
/// cut anywhere before the root element is closed
fn cut<T: YaDeserialize>(d: &str) { let at = concretize(below("at", d.len() as u8) as u64) as usize; refused::<T>(&d[..at]) }
fn cutv<T: YaSerialize + YaDeserialize>(v: T) { let d = ser(&v); let at = concretize(below("at", d.len() as u8) as u64) as usize; assume(d.is_char_boundary(at)); refused::<T>(&d[..at]) }
fn tags(d: &str) -> Vec<(usize, usize)> { let mut v = vec![]; let mut s = 0; for (i, c) in d.bytes().enumerate() { if c == b'<' { s = i } if c == b'>' { v.push((s, i + 1)) } } v }
/// one character of a tag's name replaced by any other: the tags do not match any more
fn miss<T: YaDeserialize>(d: &str) { must::<T>(d); let ts = tags(d); let (a, b) = ts[choice("tag", ts.len() as u8) as usize]; let t = &d[a..b]; assume(!t.ends_with("/>") && !t.starts_with("<?")); let n0 = if t.starts_with("</") { a + 2 } else { a + 1 }; let n1 = n0 + d[n0..b].bytes().take_while(|c| c.is_ascii_alphanumeric() || *c == b':').count();
  let at = n0 + choice("pos", (n1 - n0) as u8) as usize; let c = byte("c"); assume(c != d.as_bytes()[at] && c < 128); assume(a > 0 || c != b'/'); /* <Lea/> closes the root: what follows it is not read */ let mut m = d.as_bytes().to_vec(); m[at] = c; let m = String::from_utf8(m).unwrap(); refused::<T>(&m) }
/// one tag left out, doubled, or two neighbours swapped
fn edit<T: YaDeserialize>(d: &str) { let ts = tags(d); let k = choice("tag", ts.len() as u8) as usize; let (a, b) = ts[k]; let t = &d[a..b]; assume(!t.ends_with("/>") && !t.starts_with("<?")); match choice("how", 2) { 0 => if a == 0 { cover(0) /* another root */ } else { refused::<T>(&cat!(d[..a], d[b..])) }, _ => if t.starts_with("</") && b == d.len() { cover(0) } else { refused::<T>(&cat!(d[..b], t, d[b..])) } } }
/// a closing tag of another name
fn close<T: YaDeserialize>(d: &str) { let ts: Vec<_> = tags(d).into_iter().filter(|(a, _)| d[*a..].starts_with("</")).collect(); let (a, b) = ts[choice("tag", ts.len() as u8) as usize]; let n = name::<2>("n"); let x = cat!("</", n, ">"); assume(x != d[a..b]); refused::<T>(&cat!(d[..a], x, d[b..])) }
fn all<T: YaDeserialize>(d: &str) { match choice("kind", 4) { 0 => cut::<T>(d), 1 => miss::<T>(d), 2 => edit::<T>(d), _ => close::<T>(d) } }
fn st() -> String { vis::<2>("s") }
const SINK: &str = "<Sink a=\"1\"><i>3</i><s>xy</s><v>4</v><p k=\"6\">t</p><l k=\"7\">u</l><e><B>y</B></e><w></w><z>8</z></Sink>";
harnesses! {
  fn q_words() { let n = wname("n"); let c = vis::<1>("c"); let x = match choice("k", 6) { 0 => cat!("<Opt><a>x</a></", n, ">"), 1 => cat!("<Opt><a>x</", n, "></Opt>"), 2 => cat!("<Opt><", n, ">", esc(&c)), 3 => cat!("<", n, "><a>x</a>"), 4 => cat!("<Opt><c><s>", n, "</s></c>"), _ => cat!("<Opt><", n, "><a>x</a></Opt>") }; if flag("flat") { refused::<Wf>(&x) } else { refused::<Opt>(&x) } }
  fn q_sink() { all::<Sink>(SINK) }
  fn q_sink_unknown() { all::<Sink>("<Sink><q><i>3</i></q><e><q>1</q></e><u k=\"1\"></u><p><q></q>t</p>x</Sink>") }
  fn q_part() { all::<Part>("<Part k=\"6\">ab</Part>") }
  fn q_opt() { all::<Opt>("<Opt><a>1</a><b>2</b><b></b><c><s>3</s></c><d></d><d><s>4</s></d></Opt>") }
  fn q_leaf() { all::<Leaf>("<Leaf></Leaf>") }
  fn q_emp() { match choice("t", 3) { 0 => all::<Emp>("<Emp></Emp>"), 1 => all::<He>("<He><e></e><v></v><d>1</d><c>2</c></He>"), _ => all::<Emp>("<Emp><q>1</q>t</Emp>") } }
  fn q_enum() { match choice("t", 8) { 0 => all::<Ev>("<Ev>A</Ev>"), 1 => all::<Ev>("<Ev><B>xy</B></Ev>"), 2 => all::<Ev>("<Ev><C k=\"1\">2</C></Ev>"), 3 => all::<Ev>("<Ev><D>1</D><D>2</D></Ev>"), 4 => all::<Ev>("<Ev><E><w>1</w></E></Ev>"), 5 => all::<Ev>("<Ev></Ev>"), 6 => all::<Ev>("<Ev><F>1</F><F>2</F></Ev>"), _ => all::<Ev>("<Ev><q>1</q><B></B></Ev>") } }
  fn q_enum_tag() { match choice("t", 2) { 0 => all::<Tg>("<Tg kind=\"B\"></Tg>"), _ => all::<Ht>("<Ht><t kind=\"A\"></t><v kind=\"B\"></v><e>A</e></Ht>") } }
  fn q_flat() { match choice("t", 3) { 0 => all::<Ff>("<Ff><a>1</a><B>x</B><z>2</z></Ff>"), 1 => all::<Ff>("<Ff><C k=\"1\">2</C></Ff>"), _ => all::<Ff>("<Ff>A<z>1</z></Ff>") } }
  fn q_ns() { all::<Ns>("<n:Ns xmlns:n=\"ab\"><n:s>1</n:s><n:p n:k=\"2\"><n:t>3</n:t></n:p></n:Ns>") }
  fn q_decl() { cut::<Leaf>("<?xml version=\"1.0\" encoding=\"utf-8\"?><!-- c --><Leaf><!-- d --><s><![CDATA[x]]>&amp;</s></Leaf>") }
  fn q_flat_container() { match choice("t", 4) { 0 => all::<Wf>("<Wf k=\"1\"><a>1</a><s><s>2</s></s><w>3</w><z>4</z></Wf>"), 1 => all::<Wi>("<Wi><w>3</w></Wi>"), 2 => all::<Wf>("<Wf></Wf>"), _ => all::<Wi>("<Wi><q>1</q>t</Wi>") } }
  fn q_flat_container_enum() { match choice("t", 4) { 0 => all::<Wr>("<Wr><A><a>1</a></A></Wr>"), 1 => all::<Wr>("<Wr><B></B></Wr>"), 2 => all::<Wr>("<Wr></Wr>"), _ => all::<Wr>("<Wr>N</Wr>") } }
  fn q_flat_inside() { all::<Hw>("<Hw><a>1</a><z>4</z><B><s>2</s></B><q><a>1</a></q><r><A></A></r></Hw>") }
  fn q_default_ns() { all::<Dn>("<dflt xmlns=\"dd\"><s>1</s>t</dflt>") }
  fn q_wrappers() { all::<Hp>("<Hp><p>1</p><v>2</v><v>3</v><o>4</o></Hp>") }
  fn q_own_text() { cutv(Part { k: opt("k", || 3), t: st() }) }
  fn q_own_attr() { cutv(Sink { a: Some(any::<1>("a")), i: None, s: None, v: vec![], p: None, l: vec![], e: Ev::A, x: Fl { w: None, z: None } }) }
  fn q_own_opt() { cutv(Opt { a: Some(st()), b: vec![], c: Some(Leaf { s: None }), d: vec![] }) }
  fn q_own_list() { cutv(Opt { a: None, b: vec!["".into(), vis::<1>("s")], c: None, d: vec![Leaf { s: Some("x".into()) }] }) }
  fn q_own_enum() { match choice("v", 6) { 0 => cutv(Ev::A), 1 => cutv(Ev::B(st())), 2 => cutv(Ev::C(Part { k: None, t: st() })), 3 => cutv(Ev::D(vec![1, 2])), 4 => cutv(Ev::E(Some(Fl { w: Some(vis::<1>("w")), z: None }))), _ => cutv(Ev::F(vec![Part { k: Some(1), t: vis::<1>("t") }])) } }
  fn q_own_flat() { match choice("v", 5) { 0 => cutv(Ff { a: None, e: Ev::A, z: None }), 1 => cutv(Ff { a: Some(1), e: Ev::B(vis::<1>("s")), z: None }), 2 => cutv(Ff { a: None, e: Ev::C(Part { k: None, t: "x".into() }), z: Some("z".into()) }), 3 => cutv(Ff { a: None, e: Ev::D(vec![1, 2]), z: None }), _ => cutv(Ff { a: None, e: Ev::E(Some(Fl { w: None, z: Some(3) })), z: None }) } }
  fn q_own_cdata() { cutv(He { e: None, v: vec![Emp { }], d: "x".into(), c: vis::<2>("c") }) }
  fn q_own_uni() { let n = choice("len", 3) + 2; cutv(Part { k: None, t: uni("u", n) }) }
  fn q_text_root() { let s = st(); let e = esc(&s); let d = cat!("<Leaf><s>", e, "</s>"); refused::<Leaf>(&d) }
  fn q_empty() { match choice("t", 6) { 0 => refused::<Leaf>(""), 1 => refused::<Ev>(""), 2 => refused::<Emp>(" "), 3 => refused::<Tg>("<!---->"), 4 => refused::<Ff>("<?xml version=\"1.0\"?>"), _ => refused::<Part>("x") } }
  fn q_flat_root() { refused::<He>("<He><e>"); refused::<Sink>("<Sink><l k=\"1\">"); cover(0) }
  fn q_dup_attr() { let a = name::<1>("a"); let b = name::<1>("b"); let d = cat!("<Part ", a, "=\"1\" ", b, "=\"2\">t</Part>"); if a == b { refused::<Part>(&d) } else { check!(de::<Part>(&d).is_ok(), "a document of this type was refused"); cover(0) } }
  fn q_attr_syntax() { let x = pick("x", &["k", "k=", "k=1", "k='1", "k=\"1", "k=\"1\"b=\"2\"", "=\"1\"", "k=='1'", "k='<'", "k='&'", "k='&zz;'", "k='1' k", "k '1'", "\"1\"", "p:k='1'"]); refused::<Part>(&cat!("<Part ", x, ">t</Part>")) }
  fn q_entity() { let b = byte("b"); assume(b.is_ascii_alphanumeric() || b == b'#' || b == b';'); let c = b as char; let d = cat!("<Part>&", c.to_string(), ";</Part>"); refused::<Part>(&d) }
  fn q_second_root() { let x = pick("x", &["<Leaf><s>1</s><Leaf></Leaf>", "<Leaf><Leaf>", "<Leaf></Leaf", "<Leaf/", "</Leaf>", "<Leaf></Leaf2>", "<Leaf></leaf>", "<Leaf></ Leaf>", "<Leaf><s></Leaf></s>", "<Leaf><s></Leaf>", "<Leaf></s></Leaf>", "< Leaf></Leaf>", "<Leaf><s>1</s><s></Leaf>", "x<Leaf></Leaf>", "<Leaf>&</Leaf>", "<Leaf><</Leaf>", "<Leaf><!-- </Leaf>", "<Leaf><![CDATA[</Leaf>", "<Leaf><?p </Leaf>", "<1></1>"]); refused::<Leaf>(x) }
  fn q_many() { let n = pick("n", &[20usize, 60]); let d = cat!("<Opt>", "<b>1</b>".repeat(n), "<d><s>x</s></d>".repeat(n)); let at = d.len() - choice("at", 200) as usize; refused::<Opt>(&d[..at]) }
  fn q_deep() { let n = pick("n", &[5usize, 30]); let m = choice("m", 5) as usize; let d = cat!("<Opt>", "<q>".repeat(n), "</q>".repeat(n - m), if m == 0 { "" } else { "</Opt>" }); refused::<Opt>(&d) }
}
