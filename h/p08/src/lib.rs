use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: String, #[yaserde(attribute = true)] n: Option<i8>, i: i32, s: Option<String>, v: Vec<u8>, b: Option<bool>, f: f64, p: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl, #[yaserde(default = "df")] d: u16 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: u8, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Part), D(Vec<i16>), E(Option<Fl>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] A, B(String), C(Part) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Fe }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fs { #[yaserde(flatten = true)] e: Fl, v: Vec<Ev> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { t: Option<Tg>, v: Vec<Tg>, #[yaserde(attribute = true)] e: Option<Ev> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<String>, #[yaserde(prefix = "n")] p: Vec<NsIn> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n", attribute = true)] k: Option<u8>, #[yaserde(prefix = "n")] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Num { a: i8, b: u16, c: i64, d: bool, e: f32, #[yaserde(attribute = true)] x: u8, #[yaserde(attribute = true)] y: i32, #[yaserde(attribute = true)] z: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Op { a: Option<i8>, b: Vec<u64>, c: Option<bool>, d: Option<f64>, #[yaserde(attribute = true)] x: Option<u32>, #[yaserde(text = true)] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Rec { n: Vec<Rec>, o: Option<Leaf>, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String> }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug)]
struct Wrp(i8);
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hw { w: Wrp, v: Vec<Wrp> }
/// 0..=130 letters and then a symbolic character of two or three bytes
fn long() -> (String, String) { let n = choice("n", 131) as usize; ("a".repeat(n), uni("u", 2)) }
fn df() -> u16 { 7 }
fn go<T: YaDeserialize>(d: &[u8]) { observe(d); let r: Result<T, String> = yaserde::de::from_reader(d); observe(&[r.is_ok() as u8]); cover(0) }
const SINK: &str = "<Sink a='1' n='2'><i>3</i><s>x</s><v>4</v><b>1</b><f>5</f><p k='6'>t</p><l k='7'/><e><B>y</B></e><w/><z>8</z></Sink>";
/// `w` symbolic bytes put over (or before) byte `at` of the document
fn hole<const N: usize>(d: &str, over: bool, lo: usize, hi: usize) -> Vec<u8> { let at = lo + choice("at", (hi - lo) as u8) as usize; let b = bytes::<N>("b"); let d = d.as_bytes(); let skip = if over { N.min(d.len() - at) } else { 0 }; [&d[..at], &b[..], &d[at + skip..]].concat() }
fn put<const N: usize>(d: &str) -> Vec<u8> { let (a, z) = d.split_once('@').unwrap(); let b = bytes::<N>("b"); [a.as_bytes(), &b[..], z.as_bytes()].concat() }
harnesses! {
  fn q_words() { let n = wname("n"); let w = word("w"); let e = esc(&w); let d = match choice("k", 4) { 0 => cat!("<", n, " ", n, "=\"", esca(&w), "\"><", n, ">", e, "</", n, "></", n, ">"), 1 => cat!("<a ", n, "=\"", esca(&w), "\"><e><", n, ">", e, "</", n, "></e></a>"), 2 => cat!("<", n, "><", n, ">", e, "</", n, "></a></", n, ">"), _ => cat!("<q:", n, " xmlns:q=\"", esca(&w), "\"><i>", e, "</i><e>", e, "</e></q:", n, ">") }; match choice("ty", 6) { 0 => go::<Sink>(d.as_bytes()), 1 => go::<Ev>(d.as_bytes()), 2 => go::<Ff>(d.as_bytes()), 3 => go::<Ht>(d.as_bytes()), 4 => go::<Fs>(d.as_bytes()), _ => go::<Ns>(d.as_bytes()) } }
  fn q_any() { let n = choice("n", 4) as usize; let b = bytes::<3>("b"); go::<Sink>(&b[..n]) }
  fn q_any_enum() { let b = bytes::<3>("b"); go::<Ev>(&b) }
  fn q_start() { let b = bytes::<3>("b"); go::<Leaf>(&[b"<", &b[..]].concat()) }
  fn q_over() { let d = hole::<1>(SINK, true, 0, SINK.len()); go::<Sink>(&d) }
  fn q_ins() { let d = hole::<1>(SINK, false, 0, SINK.len()); go::<Sink>(&d) }
  fn q_over2() { const D: &str = "<Part k='6'>t</Part>"; let d = hole::<2>(D, true, 0, D.len()); go::<Part>(&d) }
  fn q_ins2() { const D: &str = "<Fs><w/><v><B>1</B></v></Fs>"; let d = hole::<2>(D, false, 0, D.len()); go::<Fs>(&d) }
  fn q_enum() { const D: &str = "<Ev><C k='1'>2</C></Ev>"; let d = if flag("over") { hole::<2>(D, true, 0, D.len()) } else { hole::<1>(D, false, 0, D.len()) }; go::<Ev>(&d) }
  fn q_enum_vec() { const D: &str = "<Ev><D>1</D><D>2</D></Ev>"; go::<Ev>(&hole::<1>(D, true, 0, D.len())) }
  fn q_enum_opt() { const D: &str = "<Ev><E><w>1</w></E></Ev>"; go::<Ev>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_flat_enum() { const D: &str = "<Ff><a>1</a><C k='2'/>A</Ff>"; go::<Ff>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_tag() { const D: &str = "<Ht e='B'><t kind='A'/><v kind='B'></v></Ht>"; go::<Ht>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_ns() { const D: &str = "<n:Ns xmlns:n='ab'><n:s>1</n:s><n:p n:k='2'/></n:Ns>"; go::<Ns>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_num() { const D: &str = "<Num x='1' y='2' z='0'><a>3</a><b>4</b><c>5</c><d>1</d><e>6</e></Num>"; go::<Num>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_op() { const D: &str = "<Op x='1'><a>3</a><b>4</b><c>5</c><d>1</d>9</Op>"; go::<Op>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_rec() { const D: &str = "<Rec><n><n/><o><s>1</s></o></n></Rec>"; go::<Rec>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_hole3() { match choice("w", 6) { 0 => go::<Num>(&put::<3>("<Num x='1' y='@'><a>3</a><b>4</b><c>5</c><d>1</d><e>6</e></Num>")), 1 => go::<Num>(&put::<3>("<Num x='1' y='2'><a>@</a><b>4</b><c>5</c><d>1</d><e>6</e></Num>")), 2 => go::<Num>(&put::<2>("<Num x='1' y='2'><a>1</a><b>4</b><c>5</c><d>1</d><e>@</e></Num>")), 3 => go::<Op>(&put::<3>("<Op>@</Op>")), 4 => go::<Ht>(&put::<3>("<Ht e='@'/>")), _ => go::<Part>(&put::<3>("<Part k='1'>&@;</Part>")) } }
  fn q_struct_events() { let x = pick("x", &["<!--c-->", "<?p d?>", "<![CDATA[c]]>", "<![CDATA[]]>", " ", "t", "&amp;", "&#65;", "<q/>", "<q><Sink/></q>", "<i/>", "<p/>", "<l/>", "<e/>", "<v/>", "<b/>", "<f>x</f>", "<s><s/></s>", "<i><i>1</i></i>", "<p k='x'/>", "<e>Q</e>", "<e><Q/></e>", "<e><C/></e>", "<e><D/></e>", "<e><B><B/></B></e>", "<z><z/></z>", "<Sink/>", "<d>x</d>", "</i>", "]]>", "<!DOCTYPE a>", "&x;", "<", "\u{0}"]);
    let mut at: Vec<usize> = SINK.bytes().enumerate().filter(|(_, c)| *c == b'<').map(|(i, _)| i).collect(); at.push(SINK.len()); let k = at[choice("at", at.len() as u8) as usize]; go::<Sink>(cat!(SINK[..k], x, SINK[k..]).as_bytes()) }
  fn q_attrs() { let x = pick("x", &["a='1'", "k='300'", "k=''", "n='x'", "xmlns=''", "xmlns='u'", "xmlns:p='u'", "xmlns:xml='u'", "p:k='1'", "k='1' k='2'", "k", "k=", "k='", "kind='Q'", "kind=''", "e=''", "xml:space='preserve'", "=''", "k='&lt;'", "k='<'"]); let p = pick("p", &["Part", "Sink", "Ht", "Tg", "Ns", "Ev"]); let d = cat!("<", p, " ", x, ">", if flag("c") { "<t kind='A'/>" } else { "" }, "</", p, ">"); match p { "Part" => go::<Part>(d.as_bytes()), "Sink" => go::<Sink>(d.as_bytes()), "Ht" => go::<Ht>(d.as_bytes()), "Tg" => go::<Tg>(d.as_bytes()), "Ns" => go::<Ns>(d.as_bytes()), _ => go::<Ev>(d.as_bytes()) } }
  fn q_prolog() { let x = pick("x", &["", "<?xml version='1.0'?>", "<?xml version='1.1' encoding='utf-8' standalone='yes'?>", "<?xml version='9'?>", "<?xml version='1.0' encoding='utf-16'?>", "<?xml encoding='q'?>", "<!DOCTYPE Leaf>", "<!DOCTYPE Leaf [<!ENTITY e 'v'>]>", "<!DOCTYPE Leaf [<!ENTITY e '&e;'>]>", "<!DOCTYPE Leaf [<!ENTITY e '<s>1</s>'>]>", "\u{feff}", "<!-- -->", "<?a?>", "x", "<!DOCTYPE", "<?xml version='1.0'?><?xml version='1.0'?>", "\u{fffd}"]); let c = pick("c", &["<Leaf><s>&e;</s></Leaf>", "<Leaf>&e;</Leaf>", "<Leaf/>", "", "<Leaf", "</Leaf>"]); go::<Leaf>(cat!(x, c).as_bytes()) }
  fn q_deep() { let n = pick("n", &[1usize, 10, 40]); let t = pick("t", &["n", "q", "o", "s", "e"]); let mut d = String::from("<Rec>"); for _ in 0..n { d.push_str(&cat!("<", t, ">")) } let cut = flag("cut"); if !cut { for _ in 0..n { d.push_str(&cat!("</", t, ">")) } d.push_str("</Rec>") } match choice("ty", 3) { 0 => go::<Rec>(d.as_bytes()), 1 => go::<Ev>(d.as_bytes()), _ => go::<Sink>(d.as_bytes()) } }
  fn q_wide() { let n = pick("n", &[10usize, 70]); let t = pick("t", &["<n/>", "<q/>", "<o/>", "<s/>", "t", "<!---->", "<?p?>", "&lt;"]); let d = cat!("<Rec>", t.repeat(n), "</Rec>"); match choice("ty", 3) { 0 => go::<Rec>(d.as_bytes()), 1 => go::<Ev>(d.as_bytes()), _ => go::<Sink>(d.as_bytes()) } }
  // long names, texts and namespaces whose characters may straddle any byte offset up to 130
  fn q_long_ns() { let (f, u) = long(); match choice("w", 4) { 0 => go::<Ns>(cat!("<n:Ns xmlns:n='", f, u, "'/>").as_bytes()), 1 => go::<Ns>(cat!("<Ns xmlns='", f, u, "'/>").as_bytes()), 2 => go::<Ns>(cat!("<n:Ns xmlns:n='ab'><m:p xmlns:m='", f, u, "'/><s xmlns='", f, u, "'/></n:Ns>").as_bytes()), _ => go::<NsIn>(cat!("<NsIn xmlns='", f, u, "'><q/></NsIn>").as_bytes()) } }
  fn q_long_name() { let (f, u) = long(); match choice("w", 6) { 0 => go::<Sink>(cat!("<Sink><", f, u, "/></Sink>").as_bytes()), 1 => go::<Ev>(cat!("<Ev><", f, u, "/></Ev>").as_bytes()), 2 => go::<Leaf>(cat!("<", f, u, "><s/></", f, u, ">").as_bytes()), 3 => go::<Part>(cat!("<Part k='1' ", f, u, "='2'/>").as_bytes()), 4 => go::<Leaf>(cat!("<Leaf></", f, u, ">").as_bytes()), _ => go::<Ns>(cat!("<n:Ns xmlns:n='ab'><n:", f, u, "/><", f, u, "></", f, "></n:Ns>").as_bytes()) } }
  fn q_long_value() { let (f, u) = long(); match choice("w", 9) { 0 => go::<Num>(cat!("<Num x='", f, u, "' y='2'><a>1</a><b>4</b><c>5</c><d>1</d><e>6</e></Num>").as_bytes()), 1 => go::<Num>(cat!("<Num x='1' y='2'><a>", f, u, "</a></Num>").as_bytes()), 2 => go::<Op>(cat!("<Op x='1'><a>", f, u, "</a><b>", f, u, "</b><c>", f, u, "</c><d>", f, u, "</d>", f, u, "</Op>").as_bytes()), 3 => go::<Ht>(cat!("<Ht e='", f, u, "'/>").as_bytes()), 4 => go::<Ht>(cat!("<Ht><t kind='", f, u, "'/></Ht>").as_bytes()), 5 => go::<Ev>(cat!("<Ev>", f, u, "</Ev>").as_bytes()), 6 => go::<Ev>(cat!("<Ev><D>", f, u, "</D></Ev>").as_bytes()), 7 => go::<Part>(cat!("<Part k='1'>&", f, u, ";</Part>").as_bytes()), _ => go::<Hw>(cat!("<Hw><w>", f, u, "</w></Hw>").as_bytes()) } }
  fn q_long_digits() { let n = choice("n", 60) as usize; let z = cat!(pick("sign", &["", "-", "+"]), pick("d", &["0", "9", "1."]), pick("f", &["0", "9"]).repeat(n)); let c = vis::<1>("c"); let z = cat!(z, esc(&c)); match choice("w", 4) { 0 => go::<Num>(cat!("<Num x='", z, "' y='", z, "'><a>1</a></Num>").as_bytes()), 1 => go::<Op>(cat!("<Op x='1'><a>", z, "</a><b>", z, "</b><c>", z, "</c></Op>").as_bytes()), 2 => go::<Ev>(cat!("<Ev><D>", z, "</D></Ev>").as_bytes()), _ => go::<Hw>(cat!("<Hw><w>", z, "</w></Hw>").as_bytes()) } }
  fn q_over2_() { go::<Sink>(&hole::<2>(SINK, true, 0, SINK.len())) }
  fn q_ins2_() { go::<Sink>(&hole::<2>(SINK, false, 0, SINK.len())) }
  fn q_enum3_() { const D: &str = "<Ev><C k='1'>2</C></Ev>"; go::<Ev>(&hole::<3>(D, true, 0, D.len())) }
  fn q_any4_() { go::<Leaf>(&bytes::<4>("b")) }
  fn q_num2() { const D: &str = "<Num x='1' y='2' z='0'><a>3</a><b>4</b><c>5</c><d>1</d><e>6</e></Num>"; go::<Num>(&hole::<2>(D, flag("over"), 0, D.len())) }
  fn q_ns2() { const D: &str = "<n:Ns xmlns:n='ab'><n:s>1</n:s><n:p n:k='2'/></n:Ns>"; go::<Ns>(&hole::<2>(D, flag("over"), 0, D.len())) }
  fn q_rec2() { const D: &str = "<Rec><n><n/><o><s>1</s></o></n></Rec>"; go::<Rec>(&hole::<2>(D, flag("over"), 0, D.len())) }
  fn q_tag2() { const D: &str = "<Ht e='B'><t kind='A'/><v kind='B'></v></Ht>"; go::<Ht>(&hole::<2>(D, flag("over"), 0, D.len())) }
  fn q_flat_enum2() { const D: &str = "<Ff><a>1</a><C k='2'/>A</Ff>"; go::<Ff>(&hole::<2>(D, flag("over"), 0, D.len())) }
  fn q_part3() { const D: &str = "<Part k='6'>t</Part>"; go::<Part>(&hole::<3>(D, true, 0, D.len())) }
  // readers of other settings: white space, CDATA sections and comments are reported as such, text in pieces
  fn q_settings() { let x = pick("x", &[" ", "\n", "<!--c-->", "<?p d?>", "<![CDATA[c]]>", "<![CDATA[]]>", "a&amp;b", "a<!--c-->b", " a ", "<q/>", "<q> </q>"]); let mut at: Vec<usize> = SINK.bytes().enumerate().filter(|(_, c)| *c == b'<').map(|(i, _)| i).collect(); at.push(SINK.len()); let k = at[choice("at", at.len() as u8) as usize]; with::<Sink>(cat!(SINK[..k], x, SINK[k..]).as_bytes()) }
  fn q_settings_enum() { let d = pick("d", &["<Ev><C k='1'>2</C></Ev>", "<Ev>A</Ev>", "<Ev><B>x</B></Ev>", "<Ev><D>1</D><D>2</D></Ev>", "<Ev><E><w>1</w></E></Ev>", "<Ff><a>1</a><C k='2'/></Ff>", "<Ff>A</Ff>", "<Ff><B>1</B><a>2</a></Ff>"]); let x = pick("x", &[" ", "<!--c-->", "<?p d?>", "<![CDATA[c]]>", "<![CDATA[]]>", "&amp;", "<q/>"]); let at: Vec<usize> = (0..=d.len()).filter(|i| *i == d.len() || d.as_bytes()[*i] == b'<').collect(); let k = at[choice("at", at.len() as u8) as usize]; let d = cat!(d[..k], x, d[k..]); if d.contains("<Ev") { with::<Ev>(d.as_bytes()) } else { with::<Ff>(d.as_bytes()) } }
  fn q_settings_hole() { const D: &str = "<Hw> <w>1</w><v> </v><v><![CDATA[2]]></v></Hw>"; with::<Hw>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_settings_flat() { const D: &str = "<Fs> <w><![CDATA[2]]> </w><!--c--><v>A</v><q> <!--d--></q></Fs>"; with::<Fs>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_settings_tag() { const D: &str = "<Ht e='B'> <t kind='A'> </t><!--c--><v kind='B'><![CDATA[2]]></v></Ht>"; with::<Ht>(&hole::<1>(D, flag("over"), 0, D.len())) }
  fn q_settings_op() { const D: &str = "<Op x='1'> <a>3</a><![CDATA[2]]><c> 5</c>9<!--c--> </Op>"; with::<Op>(&hole::<1>(D, flag("over"), 0, D.len())) }
  // the same reader used again after a value, an error or the end
  fn q_again() { const D: &str = "<Rec><n><s>1</s></n><o><s>2</s></o>3</Rec>"; let d = hole::<1>(D, flag("over"), 0, D.len()); observe(&d); let mut r = yaserde::de::Deserializer::new_from_reader(&d[..]); for _ in 0..choice("skip", 4) { let e = r.next_event(); observe(&[e.is_ok() as u8]) } let first = choice("first", 5); for i in 0..4 { let ok = match (first + i) % 5 { 0 => Rec::deserialize(&mut r).is_ok(), 1 => Ev::deserialize(&mut r).is_ok(), 2 => Op::deserialize(&mut r).is_ok(), 3 => Wrp::deserialize(&mut r).is_ok(), _ => Fe::deserialize(&mut r).is_ok() }; observe(&[ok as u8]) } cover(0) }
}
/// reads with a reader whose settings are not the usual ones
fn with<T: YaDeserialize>(d: &[u8]) {
  observe(d); use yaserde::__xml::reader::{EventReader, ParserConfig};
  let c = match choice("set", 7) { 0 => ParserConfig::new(), 1 => ParserConfig::new().trim_whitespace(true).cdata_to_characters(true), 2 => ParserConfig::new().whitespace_to_characters(true).coalesce_characters(false), 3 => ParserConfig::new().ignore_comments(false).ignore_end_of_stream(true), 4 => ParserConfig::new().cdata_to_characters(true).ignore_comments(false).coalesce_characters(false), 5 => ParserConfig::new().trim_whitespace(true).ignore_root_level_whitespace(false), _ => ParserConfig::new().trim_whitespace(true).whitespace_to_characters(true).cdata_to_characters(true).ignore_end_of_stream(true) };
  let r = T::deserialize(&mut yaserde::de::Deserializer::new(EventReader::new_with_config(d, c))); observe(&[r.is_ok() as u8]); cover(0)
}
