use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: Option<String>, i: i32, s: Option<String>, v: Vec<u8>, p: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl, d: Deep }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Leaf), D(Vec<i16>), E(Option<Fl>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Deep { d: Vec<Leaf>, o: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Req { r: String, #[yaserde(attribute = true)] k: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Fe, z: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, B(String), C(Leaf), D(Vec<u8>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { t: Option<Tg>, v: Vec<Tg>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<String>, #[yaserde(prefix = "n")] p: Vec<NsIn>, #[yaserde(prefix = "n")] o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct NsIn { #[yaserde(prefix = "n", attribute = true)] k: Option<u8>, #[yaserde(prefix = "n")] t: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Df { #[yaserde(default = "df")] a: u8, #[yaserde(default = "ds")] s: String, o: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String, n: u8 }
fn df() -> u8 { 7 }
fn ds() -> String { "q".into() }
const SINK: &str = "<Sink a=\"1\"><i>3</i><s>x</s><v>4</v><v>5</v><p k=\"6\">t</p><l k=\"7\">u</l><e><B>y</B></e><w>ww</w><z>8</z><d><d k=\"1\"><s>9</s></d><d></d><o><s>2</s></o></d></Sink>";
/// byte positions where child content may stand: right after every tag except inside elements listed as holding character data only
fn spots(d: &str, root_only: bool) -> Vec<usize> {
  let mut v = vec![]; let mut depth = 0; let b = d.as_bytes(); let mut i = 0;
  while i < b.len() { if b[i] == b'<' { let end = i + d[i..].find('>').unwrap() + 1; let close = b[i + 1] == b'/'; let empty = b[end - 2] == b'/'; if close { depth -= 1 } else if !empty { depth += 1 }
      // after this tag, the next thing is markup or the text of a leaf
      let leaf_open = !close && !empty && (b[end] != b'<' || b[end + 1] == b'/');
      if depth > 0 && !leaf_open && (!root_only || depth == 1) { v.push(end) } i = end } else { i += 1 } }
  v
}
/// ends of the names of opening tags: an attribute may be put there
fn opens(d: &str) -> Vec<usize> { let b = d.as_bytes(); (0..b.len()).filter(|i| b[*i] == b'<' && b[*i + 1] != b'/').map(|i| i + 1 + d[i + 1..].bytes().take_while(|c| c.is_ascii_alphanumeric() || *c == b':').count()).collect() }
fn ins(d: &str, at: usize, x: &str) -> String { cat!(d[..at], x, d[at..]) }
fn same<T: YaDeserialize + PartialEq>(plain: &str, with: &str) { let v = must::<T>(plain); reads(with, &v) }
/// unknown content of every shape; `n` is the unknown name, `k` names known somewhere in the type
fn junk(n: &str, k: &str) -> String {
  match choice("junk", 14) { 0 => cat!("<", n, "/>"), 1 => cat!("<", n, "></", n, ">"), 2 => cat!("<", n, ">text</", n, ">"), 3 => cat!("<", n, "><", k, ">9</", k, "></", n, ">"), 4 => cat!("<", n, "><", n, "><", k, "/></", n, "></", n, ">"), 5 => cat!("<", n, " k=\"9\" a=\"9\"/>"), 6 => cat!("<", n, ">9<", k, "/>9</", n, ">"),
    7 => cat!("<", n, "/><", n, "/>"), 8 => cat!("<", n, "><", k, "><", k, ">9</", k, "></", k, "></", n, ">"), 9 => cat!("<", n, "><![CDATA[<", k, ">]]></", n, ">"), 10 => cat!("<", n, "><!-- c --><?p d?></", n, ">"), 11 => cat!("<", n, "><", k, ">9</", k, "><", k, ">8</", k, "></", n, ">"), 12 => cat!("<", n, ">&lt;", k, "&gt;</", n, ">"), _ => cat!("<", n, "><q1/><q2><q3>1</q3></q2></", n, ">") }
}
fn junks<T: YaDeserialize + PartialEq>(d: &str, names: &[&str]) { let s = spots(d, false); let at = s[choice("at", s.len() as u8) as usize]; let k = pick("k", names); same::<T>(d, &ins(d, at, &junk("q", k))) }
fn attrs<T: YaDeserialize + PartialEq>(d: &str) { let s = opens(d); let at = s[choice("at", s.len() as u8) as usize]; let x = match choice("x", 8) { 0 => " q=\"9\"".into(), 1 => " i=\"9\" s=\"9\" v=\"9\" d=\"9\"".into(), 2 => " xmlns:zz=\"u\"".into(), 3 => " xml:lang=\"en\"".into(), 4 => " t=\"9\" r=\"9\" B=\"9\"".into(), 5 => " q=\"&lt;k&gt;\" p=\"9\"".into(), 6 => " K=\"9\" A=\"9\" kk=\"9\" aa=\"9\"".into(), _ => cat!(" ", "q", "=\"", esca(&any::<1>("v")), "\"") }; same::<T>(d, &ins(d, at, &x)) }
fn unknown<const N: usize>(known: &[&str]) -> String { let n = name::<N>("n"); assume(!known.iter().any(|k| *k == n)); n }
/// names much like a declared one: a byte before it, after it, in place of its first or last, or less
fn near(k: &str, known: &[&str]) -> String { let c = name::<1>("c"); let l = k.len() - 1; let n = match choice("near", 6) { 0 => cat!(c, k), 1 => cat!(k, c), 2 => cat!(c, k[1..]), 3 => cat!(k[..l], c), 4 => cat!(k, k), _ => cat!(k, "_", c) }; assume(!known.iter().any(|k| *k == n)); n }
const FLD: &[&str] = &["a", "i", "s", "v", "p", "l", "e", "w", "z", "d"];
harnesses! {
  fn q_words() { let s = spots(SINK, false); let at = s[choice("at", s.len() as u8) as usize]; let k = choice("k", 3); let x = if k == 0 { let w = word("w"); cat!("<u w=\"", esca(&w), "\">", esc(&w), "</u>") } else { let n = wname("n"); assume(!FLD.contains(&&n[..])); if k == 1 { cat!("<", n, " ", n, "=\"1\"><i>", n, "</i></", n, ">") } else { cat!("<q:", n, " xmlns:q=\"u\">", n, "</q:", n, ">") } }; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_attr_words() { let n = wname("n"); assume(!["a", "k"].contains(&&n[..])); let s = opens(SINK); let at = s[choice("at", s.len() as u8) as usize]; let v = pick("v", &["true", "false", "0", "1", "preserve", "Ev", "x", ""]); let x = if flag("ns") { cat!(" xmlns:q=\"u\" q:", n, "=\"", v, "\"") } else { cat!(" ", n, "=\"", v, "\"") }; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_elem() { junks::<Sink>(SINK, &["Sink", "i", "s", "v", "p", "l", "e", "B", "w", "z", "d", "o"]) }
  fn q_attr() { attrs::<Sink>(SINK) }
  fn q_name1() { let n = unknown::<1>(FLD); let at = spots(SINK, true); let at = at[choice("at", at.len() as u8) as usize]; let x = if flag("full") { cat!("<", n, "><s>9</s></", n, ">") } else { cat!("<", n, "/>") }; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_name2() { let n = unknown::<2>(FLD); let at = pick("at", &[12usize, 20, SINK.len() - 7]); same::<Sink>(SINK, &ins(SINK, at, &cat!("<", n, ">8</", n, ">"))) }
  fn q_name3() { let n = unknown::<3>(FLD); same::<Sink>(SINK, &ins(SINK, 12, &cat!("<", n, " ", n, "=\"1\">8</", n, ">"))) }
  fn q_attr_name() { let n = unknown::<1>(&["a"]); same::<Sink>(SINK, &ins(SINK, 5, &cat!(" ", n, "=\"9\""))) }
  fn q_attr_name2() { let n = unknown::<2>(&["k", "a"]); const D: &str = "<Leaf k=\"3\"><s>1</s></Leaf>"; same::<Leaf>(D, &ins(D, 5, &cat!(" ", n, "=\"9\""))) }
  fn q_known_after() { let n = unknown::<2>(&["k"]); let d = "<Req k=\"1\"><r>2</r></Req>"; same::<Req>(d, &cat!("<Req ", n, "=\"0\" k=\"1\" q=\"2\"><", n, "><r>0</r></", n, "><r>2</r><", n, "/></Req>")) }
  fn q_req_only_unknown() { let n = unknown::<1>(&["r"]); refused::<Req>(&cat!("<Req k=\"1\"><", n, ">2</", n, "></Req>")); refused::<Req>(&cat!("<Req k=\"1\"><", n, "><r>2</r></", n, "></Req>")); refused::<Req>("<Req q=\"1\"><r>2</r></Req>"); refused::<Req>("<Req><r k=\"1\">2</r></Req>") }
  fn q_enum() { let d = pick("d", &["<Ev><B>y</B></Ev>", "<Ev><C k=\"1\"><s>2</s></C></Ev>", "<Ev><D>1</D><D>2</D></Ev>", "<Ev><E><w>1</w><z>2</z></E></Ev>"]); junks::<Ev>(d, &["A", "B", "C", "D", "E", "Ev", "s", "w"]) }
  fn q_enum_unit() { let x = junk("q", pick("k", &["B", "C", "D", "A"])); reads(&cat!("<Ev>", x, "A</Ev>"), &Ev::A); reads(&cat!("<Ev>A", x, "</Ev>"), &Ev::A) }
  fn q_enum_name() { let n = unknown::<1>(&["A", "B", "C", "D", "E"]); let x = cat!("<", n, "><B>0</B></", n, ">"); let f = flag("first"); reads(&cat!("<Ev>", if f { x.as_str() } else { "" }, "<B>y</B>", if f { "" } else { x.as_str() }, "</Ev>"), &Ev::B("y".into())) }
  fn q_enum_attr() { attrs::<Ev>(pick("d", &["<Ev><B>y</B></Ev>", "<Ev><C k=\"1\"><s>2</s></C></Ev>", "<Ev><D>1</D></Ev>"])) }
  fn q_flat() { let d = pick("d", &["<Ff><a>1</a><B>y</B><z>3</z></Ff>", "<Ff><a>1</a><C k=\"1\"><s>2</s></C><z>3</z></Ff>", "<Ff><D>1</D><z>3</z></Ff>"]); junks::<Ff>(d, &["a", "B", "C", "D", "z", "s", "Ff"]) }
  fn q_flat_attr() { attrs::<Ff>("<Ff><a>1</a><C k=\"1\"><s>2</s></C><z>3</z></Ff>") }
  fn q_tag() { junks::<Ht>("<Ht><t kind=\"B\"/><v kind=\"A\"/><v kind=\"B\"></v><s>1</s></Ht>", &["t", "v", "s", "kind"]) }
  fn q_tag_in() { let x = junk("q", pick("k", &["A", "B", "t", "s"])); same::<Ht>("<Ht><t kind=\"B\"></t><v kind=\"A\"></v><s>1</s></Ht>", &cat!("<Ht><t kind=\"B\">", x, "</t><v kind=\"A\"></v><s>1</s></Ht>")); same::<Tg>("<Tg kind=\"B\"/>", &cat!("<Tg kind=\"B\">", x, "</Tg>")) }
  fn q_ns() { junks::<Ns>("<n:Ns xmlns:n=\"ab\"><n:s>1</n:s><n:p n:k=\"2\"><n:t>3</n:t></n:p><n:p/><n:o>4</n:o></n:Ns>", &["n:s", "n:p", "n:t", "s", "p", "t"]) }
  fn q_ns_other() { let d = "<n:Ns xmlns:n=\"ab\"><n:s>1</n:s><n:p n:k=\"2\"><n:t>3</n:t></n:p><n:o>4</n:o></n:Ns>"; let s = spots(d, false); let at = s[choice("at", s.len() as u8) as usize]; let n = pick("n", &["s", "p", "t", "o", "Ns", "q"]); let x = match choice("x", 5) { 0 => cat!("<", n, ">9</", n, ">"), 1 => cat!("<z:", n, " xmlns:z=\"u\">9</z:", n, ">"), 2 => cat!("<", n, " xmlns=\"u\"><", n, "/>9</", n, ">"), 3 => cat!("<z:", n, " xmlns:z=\"u\"><n:s>9</n:s><n:t>9</n:t></z:", n, ">"), _ => cat!("<", n, "><n:s>9</n:s></", n, ">") }; same::<Ns>(d, &ins(d, at, &x)) }
  fn q_text() { let x = junk("q", pick("k", &["t", "k", "Part"])); match choice("w", 3) { 0 => same::<Part>("<Part k=\"1\">ab</Part>", &cat!("<Part k=\"1\">", x, "ab</Part>")), 1 => same::<Part>("<Part k=\"1\">ab</Part>", &cat!("<Part k=\"1\">ab", x, "</Part>")), _ => same::<Sink>(SINK, &SINK.replace(">t<", &cat!(">", x, "t<"))) } }
  fn q_stray_text() { let s = spots("<Deep><d k=\"1\"><s>9</s></d><d></d><o><s>2</s></o></Deep>", false); let at = s[choice("at", s.len() as u8) as usize]; let d = "<Deep><d k=\"1\"><s>9</s></d><d></d><o><s>2</s></o></Deep>"; let c = vis::<2>("c"); same::<Deep>(d, &ins(d, at, &esc(&c))) }
  fn q_stray_text_sink() { let s = spots(SINK, true); let at = s[choice("at", s.len() as u8) as usize]; let x = pick("x", &["text", "i", "9", "&lt;i>9&lt;/i>", "<![CDATA[<i>9</i>]]>", "A", "B"]); same::<Sink>(SINK, &ins(SINK, at, x)) }
  fn q_default() { let x = junk("q", pick("k", &["a", "s", "o"])); let a = if flag("a") { "<a>1</a>" } else { "" }; let s = if flag("s") { "<s>2</s>" } else { "" }; let o = if flag("o") { "<o>true</o>" } else { "" }; let f = flag("first"); let (b, e) = if f { (x.as_str(), "") } else { ("", x.as_str()) }; same::<Df>(&cat!("<Df>", a, s, o, "</Df>"), &cat!("<Df>", b, a, s, e, o, "</Df>")) }
  fn q_simple_inner() { // an element inside a simple field is not part of its value's neighbours
    let x = junk("q", pick("k", &["i", "s", "v", "n"])); match de::<Cd>(&cat!("<Cd><c>x", x, "</c><n>3</n></Cd>")) { Ok(v) => check!(v.n == 3, "value read differs"), Err(_) => {} } match de::<Deep>(&cat!("<Deep><d><s>1", x, "</s></d><d k=\"3\"/></Deep>")) { Ok(v) => check!(v.d.len() == 2 && v.d[1].k == Some(3) && v.d[1].s.is_none() && v.o.is_none(), "value read differs"), Err(_) => {} } cover(0) }
  fn q_deep() { let n = pick("n", &[3usize, 30]); let k = pick("k", &["q", "s", "d", "i", "l"]); let x = cat!("<u>", cat!("<", k, ">").repeat(n), "9", cat!("</", k, ">").repeat(n), "</u>"); let s = spots(SINK, false); let at = s[choice("at", s.len() as u8) as usize]; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_many() { let n = pick("n", &[20usize, 70]); let x = pick("x", &["<u/>", "<u>9</u>", "<u><s>9</s></u>", "<u k=\"9\"/>"]).repeat(n); let s = spots(SINK, true); let at = s[choice("at", s.len() as u8) as usize]; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_many_inside() { // a big unknown element, full of known names
    let n = pick("n", &[1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]); let x = pick("x", &["<s>9</s>", "<i/>", "<l k=\"9\"/>", "<v>9</v>", "s", "<!---->", "<e><B>9</B></e>"]).repeat(n); let s = spots(SINK, false); let at = s[pick("at", &[0usize, 1, 3]).min(s.len() - 1)]; same::<Sink>(SINK, &ins(SINK, at, &cat!("<u>", x, "</u>"))) }
  fn q_deep_inside() { let n = pick("n", &[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]); let k = pick("k", &["u", "s", "l"]); let x = cat!("<u>", cat!("<", k, ">").repeat(n), "<s>9</s>", cat!("</", k, ">").repeat(n), "<i>9</i></u>"); let s = spots(SINK, false); let at = s[pick("at", &[0usize, 1, 3]).min(s.len() - 1)]; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_long_unknown() { let n = pick("n", &[15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 1023, 1024, 1025]); let t = "s".repeat(n); let x = match choice("w", 4) { 0 => cat!("<", t, "/>"), 1 => cat!("<u ", t, "=\"9\"/>"), 2 => cat!("<u k=\"", t, "\"/>"), _ => cat!("<u>", t, "</u>") }; let s = spots(SINK, false); let at = s[choice("at", s.len() as u8) as usize]; same::<Sink>(SINK, &ins(SINK, at, &x)) }
  fn q_between_items() { let n = unknown::<1>(&["d", "o"]); let v = opt("o", || "<o><s>1</s></o>").unwrap_or(""); same::<Deep>(&cat!("<Deep><d k=\"1\"/><d k=\"2\"/>", v, "<d k=\"3\"/></Deep>"), &cat!("<Deep><d k=\"1\"/><", n, " k=\"8\"/><d k=\"2\"/>", v, "<", n, "><d k=\"9\"/></", n, "><d k=\"3\"/></Deep>")) }
  fn q_mixed_text() { let c = vis::<1>("c"); let x = junk("q", pick("k", &["t", "k"])); same::<Part>(&cat!("<Part>", esc(&c), "cd</Part>"), &cat!("<Part>", esc(&c), x, "cd</Part>")) }
  fn q_near_attr() { let (d, k, known): (_, _, &[&str]) = match choice("d", 5) { 0 => ("<Ht><t kind=\"B\"/><v kind=\"A\"/><v kind=\"B\"></v><s>1</s></Ht>", "kind", &["kind"]), 1 => ("<Lf key=\"1\" flag=\"true\"><sub word=\"w\"/><list word=\"x\"/><list word=\"y\">t</list></Lf>", "key", &["key", "flag", "word"]), 2 => ("<Lf key=\"1\" flag=\"true\"><sub word=\"w\"/><list word=\"x\"/><list word=\"y\">t</list></Lf>", "flag", &["key", "flag", "word"]), 3 => ("<Lf key=\"1\"><sub word=\"w\"/><list word=\"x\"/><list word=\"y\">t</list></Lf>", "word", &["key", "flag", "word"]), _ => ("<Tg kind=\"B\"/>", "kind", &["kind"]) };
    let n = near(k, known); let s = opens(d); let i = choice("at", s.len() as u8) as usize; let f = flag("first"); let at = if f { s[i] } else { s[i] + d[s[i]..].find(|c| c == '>' || c == '/').unwrap() }; let v = pick("v", &["A", "9", "true", ""]); let w = ins(d, at, &cat!(" ", n, "=\"", v, "\"")); if d.starts_with("<H") { same::<Ht>(d, &w) } else if d.starts_with("<L") { same::<Lf>(d, &w) } else { same::<Tg>(d, &w) } }
  fn q_near_elem() { const D: &str = "<Lf key=\"1\"><sub word=\"w\"/><list word=\"x\"/><list word=\"y\">t</list><text>u</text></Lf>"; let known: &[&str] = &["sub", "list", "text"]; let n = near(pick("k", known), known); let s = spots(D, true); let at = s[choice("at", s.len() as u8) as usize]; let x = match choice("x", 3) { 0 => cat!("<", n, "/>"), 1 => cat!("<", n, " word=\"9\">9</", n, ">"), _ => cat!("<", n, "><sub word=\"9\"/></", n, ">") }; same::<Lf>(D, &ins(D, at, &x)) }
  fn q_near_variant() { let known: &[&str] = &["Text", "Leaf", "List"]; let n = near(pick("k", known), known); let d = pick("d", &["<Wd><Text>y</Text></Wd>", "<Wd><Leaf k=\"1\"><s>2</s></Leaf></Wd>", "<Wd><List>1</List><List>2</List></Wd>"]); let s = spots(d, true); let at = s[choice("at", s.len() as u8) as usize]; let x = if flag("full") { cat!("<", n, " k=\"9\">9</", n, ">") } else { cat!("<", n, "/>") }; same::<Wd>(d, &ins(d, at, &x)); same::<Wf>(&d.replace("Wd>", "Wf>"), &ins(d, at, &x).replace("Wd>", "Wf>")) }
}
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Lf { #[yaserde(attribute = true)] key: Option<u8>, #[yaserde(attribute = true)] flag: Option<bool>, sub: Option<Wo>, list: Vec<Wo>, text: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Wo { #[yaserde(attribute = true)] word: Option<String>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Wd { #[default] Unit, Text(String), Leaf(Leaf), List(Vec<u8>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Wf { #[yaserde(flatten = true)] w: We }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum We { #[default] Unit, Text(String), Leaf(Leaf), List(Vec<u8>) }
