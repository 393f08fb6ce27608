use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: Option<String>, #[yaserde(attribute = true)] n: Option<i8>, i: i32, s: Option<String>, v: Vec<u8>, p: Option<Part>, l: Vec<Part>, e: Ev, #[yaserde(flatten = true)] x: Fl, d: Deep }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: Option<u8>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { w: Option<String>, z: Option<i64> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Leaf), D(Vec<i16>), E(Option<Fl>) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Deep { d: Vec<Leaf>, o: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Four { a: String, b: Option<u8>, c: Vec<String>, d: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct At { #[yaserde(attribute = true)] a: String, #[yaserde(attribute = true)] b: Option<u8>, #[yaserde(attribute = true)] c: bool, #[yaserde(attribute = true)] d: Option<Un> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, B, C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Fe, z: Option<String>, #[yaserde(flatten = true)] f: Fl }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] N, B(String), C(Leaf) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Hold { u: Un, o: Option<Un>, v: Vec<Un>, s: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { t: Tg, v: Vec<Tg>, #[yaserde(attribute = true)] k: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab", "o" = "cd" })]
struct Ns { #[yaserde(prefix = "n")] s: String, #[yaserde(prefix = "o")] t: Option<String>, u: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Cd { #[yaserde(cdata = true)] c: String, n: u8 }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Tx { #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Nm { a: i8, b: u16, c: i64, d: bool, e: f32, v: Vec<bool>, #[yaserde(attribute = true)] x: u8 }
fn same<T: YaDeserialize + PartialEq>(plain: &str, with: &str) { let v = must::<T>(plain); reads(with, &v) }
/// the parts in any order
fn perm(parts: &[&str]) -> String { let mut p: Vec<&str> = parts.to_vec(); let mut o = String::new(); while !p.is_empty() { let k = if p.len() > 1 { choice("next", p.len() as u8) } else { 0 } as usize; o.push_str(p.remove(k)) } o }
fn spots(d: &str) -> Vec<usize> {
  let mut v = vec![]; let mut depth = 0; let b = d.as_bytes(); let mut i = 0;
  while i < b.len() { if b[i] == b'<' { let end = i + d[i..].find('>').unwrap() + 1; let close = b[i + 1] == b'/'; let empty = b[end - 2] == b'/'; if close { depth -= 1 } else if !empty { depth += 1 }
      let leaf_open = !close && !empty && (b[end] != b'<' || b[end + 1] == b'/'); if depth > 0 && !leaf_open { v.push(end) } i = end } else { i += 1 } }
  v
}
fn anywhere<T: YaDeserialize + PartialEq>(d: &str, x: &str) { let mut s = spots(d); s.push(0); let at = s[choice("at", s.len() as u8) as usize]; same::<T>(d, &cat!(d[..at], x, d[at..])) }
fn everywhere<T: YaDeserialize + PartialEq>(d: &str, x: &str) { let s = spots(d); let mut o = String::from(x); let mut p = 0; for at in s { o.push_str(&cat!(d[p..at], x)); p = at } o.push_str(&d[p..]); same::<T>(d, &o) }
fn noise() -> String { match choice("noise", 9) { 0 => "<!-- c -->".into(), 1 => "<!--<i>9</i>-->".into(), 2 => "<?p d?>".into(), 3 => "<?p?>".into(), 4 => " ".into(), 5 => "\n\t\r\n  ".into(), 6 => " <!-- a --> <!-- b --> ".into(), 7 => { let b = bytes::<2>("w"); for c in b { assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r') } String::from_utf8(b.to_vec()).unwrap() } _ => { let c = vis::<1>("c"); assume(c != "-"); cat!("<!--", c, "-->") } } }
const SINK: &str = "<Sink a=\"1\" n=\"-2\"><i>3</i><s>x</s><v>4</v><v>5</v><p k=\"6\">t</p><l k=\"7\">u</l><e><B>y</B></e><w>ww</w><z>8</z><d><d k=\"1\"><s>9</s></d><d></d><o><s>2</s></o></d></Sink>";
/// a spelling of one character
fn spell(c: u8, how: u8) -> String { let d = dec(c as i128); let h = { let x = b"0123456789abcdef"; [x[(c >> 4) as usize], x[(c & 15) as usize]] }; let hs = std::str::from_utf8(&h).unwrap(); let ch = (c as char).to_string(); match how { 0 => esc(&ch), 1 => cat!("&#", d, ";"), 2 => cat!("&#x", hs, ";"), 3 => cat!("<![CDATA[", ch, "]]>"), 4 => cat!("&#x00", hs.to_uppercase(), ";"), _ => cat!("&#0", d, ";") } }
fn vc(n: &str) -> u8 { let c = byte(n); assume(c > b' ' && c < 127); c }
/// the character as a concrete value per path where a reference needs its digits
fn cc(n: &str) -> u8 { pick(n, b"aZ09<>&\"'/]!#;=~-") }
harnesses! {
  fn q_words() { let w = word("w"); assume(!w.contains("]]>")); let n = wname("n"); assume(n == "nil" || w == "nil"); let t = match choice("k", 5) { 0 => cat!("<![CDATA[", w, "]]>"), 1 => w.chars().map(|c| cat!("&#", dec(c as i128), ";")).collect(), 2 => { assume(!w.contains("--") && !w.ends_with('-')); cat!("<!--", w, "-->", esc(&w)) } 3 => cat!("\n ", esc(&w), " \n"), _ => { let k = w.chars().next().unwrap().len_utf8(); cat!("<![CDATA[", w[..k], "]]>", esc(&w[k..])) } }; let p = match choice("prolog", 3) { 0 => "".to_string(), 1 => cat!("<?", n, " x?>"), _ => cat!("<!-- ", n, " -->") }; reads(&cat!(p, "<Tx>", t, "</Tx>"), &Tx { t: w.clone() }); reads(&cat!(p, "<Four><b>1</b><a>", t, "</a><c>", t, "</c></Four>"), &Four { a: w.clone(), b: Some(1), c: vec![w], d: None }) }
  fn q_order() { let b = perm(&["<a>1</a>", "<b>2</b>", "<c>3</c>", "<c>3</c>", "<d k=\"1\"><s>4</s></d>"]); same::<Four>("<Four><a>1</a><b>2</b><c>3</c><c>3</c><d k=\"1\"><s>4</s></d></Four>", &cat!("<Four>", b, "</Four>")) }
  fn q_order_items() { // repeated elements keep their relative order wherever the others stand
    let b = perm(&["@", "<a>1</a>", "@", "<d/>", "@"]); let mut i = 0; let d: String = b.chars().map(|c| if c == '@' { i += 1; cat!("<c>", dec(i), "</c>") } else { c.to_string() }).collect(); reads(&cat!("<Four>", d, "</Four>"), &Four { a: "1".into(), b: None, c: vec!["1".into(), "2".into(), "3".into()], d: Some(Leaf { s: None, k: None }) }) }
  fn q_order_sym() { let x = vis::<1>("x"); let y = vis::<1>("y"); let b = perm(&[&el("a", &esc(&x)), &el("c", &esc(&y)), "<b>7</b>", "<d><s>4</s></d>"]); reads(&cat!("<Four>", b, "</Four>"), &Four { a: x.clone(), b: Some(7), c: vec![y], d: Some(Leaf { s: Some("4".into()), k: None }) }) }
  fn q_order_sink() { let b = perm(&["<i>3</i><s>x</s><v>4</v>", "<p k=\"6\">t</p><l k=\"7\">u</l>", "<e><B>y</B></e>", "<w>ww</w><z>8</z>", "<d><o><s>2</s></o><d k=\"1\"/></d>"]); same::<Sink>("<Sink><i>3</i><s>x</s><v>4</v><p k=\"6\">t</p><l k=\"7\">u</l><e><B>y</B></e><w>ww</w><z>8</z><d><d k=\"1\"/><o><s>2</s></o></d></Sink>", &cat!("<Sink>", b, "</Sink>")) }
  fn q_order_sink2() { let b = perm(&["<i>3</i>", "<z>8</z>", "<s>x</s>", "<w>ww</w><v>4</v>", "<e>A</e><l/>", "<d/>"]); same::<Sink>("<Sink><i>3</i><s>x</s><v>4</v><l/><e>A</e><w>ww</w><z>8</z><d/></Sink>", &cat!("<Sink>", b, "</Sink>")) }
  fn q_order_flat() { let e = match choice("e", 2) { 0 => "<B>y</B>", _ => "<C k=\"1\"><s>2</s></C>" }; let b = perm(&["<a>1</a>", e, "<z>2</z>", "<w>3</w>"]); same::<Ff>(&cat!("<Ff><a>1</a>", e, "<z>2</z><w>3</w></Ff>"), &cat!("<Ff>", b, "</Ff>")) }
  fn q_order_enum() { let b = perm(&["<u>B</u>", "<o>C</o>", "<v>A</v><v>B</v>", "<s>A</s>"]); same::<Hold>("<Hold><u>B</u><o>C</o><v>A</v><v>B</v><s>A</s></Hold>", &cat!("<Hold>", b, "</Hold>")) }
  fn q_order_nums() { let b = perm(&["<a>-1</a>", "<b>2</b><v>1</v><v>0</v>", "<c>3</c>", "<d>1</d>", "<e>1.5</e>"]); reads(&cat!("<Nm x='4'>", b, "</Nm>"), &Nm { a: -1, b: 2, c: 3, d: true, e: 1.5, v: vec![true, false], x: 4 }) }
  fn q_order_ns() { let b = perm(&["<n:s>1</n:s>", "<o:t>2</o:t>", "<u>3</u>"]); reads(&cat!("<n:Ns xmlns:o=\"cd\" xmlns:n=\"ab\">", b, "</n:Ns>"), &Ns { s: "1".into(), t: Some("2".into()), u: Some(3) }) }
  fn q_attr_order() { let b = perm(&[" a=\"x\"", " b='2'", " c=\"true\"", " d = \"C\""]); reads(&cat!("<At", b, "/>"), &At { a: "x".into(), b: Some(2), c: true, d: Some(Un::C) }) }
  fn q_attr_order_tag() { let b = perm(&[" kind=\"B\"", " z='1'", " y='kind'", " xmlns:q='cd'"]); let k = cat!("<t", b, "/>"); reads(&cat!("<Ht k='3'>", k, "<v", b, "></v></Ht>"), &Ht { t: Tg::B, v: vec![Tg::B], k: Some(3) }); reads(&cat!("<Tg", b, "></Tg>"), &Tg::B) }
  fn q_attr_order_all() { // attributes of every holder, mixed with unknown ones and namespace declarations
    let b = perm(&[" k=\"1\"", " z='2'", " xmlns:q='cd'"]); match choice("h", 5) { 0 => reads(&cat!("<Ev><C", b, "><s>x</s></C></Ev>"), &Ev::C(Leaf { s: Some("x".into()), k: Some(1) })), 1 => reads(&cat!("<Part", b, ">x</Part>"), &Part { k: Some(1), t: "x".into() }), 2 => reads(&cat!("<Ff", b, "><C", b, "><s>x</s></C></Ff>"), &Ff { a: None, e: Fe::C(Leaf { s: Some("x".into()), k: Some(1) }), z: None, f: Fl { w: None, z: None } }), 3 => reads(&cat!("<Deep><d", b, "/><o", b, "/><d", b, "/></Deep>"), &Deep { d: vec![Leaf { s: None, k: Some(1) }, Leaf { s: None, k: Some(1) }], o: Some(Leaf { s: None, k: Some(1) }) }), _ => reads(&cat!("<Four><a", b, ">1</a><b", b, ">2</b><c", b, ">3</c></Four>"), &Four { a: "1".into(), b: Some(2), c: vec!["3".into()], d: None }) } }
  fn q_attr_order_ns() { let b = perm(&[" xmlns:p=\"ab\"", " xmlns:q='cd'", " k=\"1\"", " z='2'"]); reads(&cat!("<p:Ns", b, "><p:s>1</p:s><q:t>2</q:t></p:Ns>"), &Ns { s: "1".into(), t: Some("2".into()), u: None }) }
  fn q_noise() { anywhere::<Sink>(SINK, &noise()) }
  fn q_noise_all() { everywhere::<Sink>(SINK, &noise()) }
  fn q_noise_enum() { let d = pick("d", &["<Ev><B>y</B></Ev>", "<Ev><C k=\"1\"><s>2</s></C></Ev>", "<Ev><D>1</D><D>2</D></Ev>", "<Ev><E><w>1</w><z>2</z></E></Ev>"]); if flag("all") { everywhere::<Ev>(d, &noise()) } else { anywhere::<Ev>(d, &noise()) } }
  fn q_noise_flat() { let d = pick("d", &["<Ff><a>1</a><B>y</B><z>3</z><w>4</w></Ff>", "<Ff><a>1</a><C k=\"1\"><s>2</s></C><z>3</z></Ff>"]); if flag("all") { everywhere::<Ff>(d, &noise()) } else { anywhere::<Ff>(d, &noise()) } }
  fn q_noise_unit() { let x = noise(); same::<Un>("<Un>B</Un>", &cat!("<Un>", x, "B</Un>")); same::<Un>("<Un>B</Un>", &cat!("<Un>B", x, "</Un>")); same::<Hold>("<Hold><u>B</u><v>C</v><s>A</s></Hold>", &cat!("<Hold><u>", x, "B</u><v>C", x, "</v><s>A</s></Hold>")) }
  fn q_noise_tag() { everywhere::<Ht>("<Ht k=\"1\"><t kind=\"B\"></t><v kind=\"A\"></v><v kind=\"B\"></v></Ht>", &noise()); let x = noise(); same::<Ht>("<Ht><t kind=\"B\"/></Ht>", &cat!("<Ht><t kind=\"B\">", x, "</t></Ht>")) }
  fn q_noise_text() { // around and inside the character data of simple fields
    let x = noise(); assume(x.trim() == x || x.trim().is_empty()); let ws = x.trim().is_empty(); match choice("w", 5) { 0 => same::<Nm>("<Nm x='1'><a>12</a><b>2</b><c>3</c><d>1</d><e>1</e></Nm>", &cat!("<Nm x='1'><a>", x, "12</a><b>2", x, "</b><c>", x, "3", x, "</c><d>", x, "1</d><e>1", x, "</e></Nm>")), 1 => same::<Four>("<Four><a>xy</a><c>z</c></Four>", &cat!("<Four><a>", x, "xy</a><c>z", x, "</c></Four>")), 2 => same::<Tx>("<Tx>xy</Tx>", &if flag("f") { cat!("<Tx>", x, "xy</Tx>") } else { cat!("<Tx>xy", x, "</Tx>") }), 3 => same::<Ev>("<Ev><B>y</B></Ev>", &cat!("<Ev><B>", x, "y", x, "</B></Ev>")), _ => { assume(!ws && !x.contains("<?")); same::<Four>("<Four><a>xy</a><c>zz</c></Four>", &cat!("<Four><a>x", x, "y</a><c>z", x, "z</c></Four>")); same::<Tx>("<Tx>xy</Tx>", &cat!("<Tx>x", x, "y</Tx>")); same::<Nm>("<Nm x='1'><a>12</a><b>2</b><c>34</c><d>1</d><e>1.5</e></Nm>", &cat!("<Nm x='1'><a>1", x, "2</a><b>2</b><c>3", x, "4</c><d>1</d><e>1", x, ".5</e></Nm>")); same::<Cd>("<Cd><c>xy</c><n>12</n></Cd>", &cat!("<Cd><c>x", x, "y</c><n>1", x, "2</n></Cd>")); same::<Ev>("<Ev><B>yz</B></Ev>", &cat!("<Ev><B>y", x, "z</B></Ev>")) } } }
  fn q_prolog() { let p = pick("p", &["", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n", "<?xml version=\"1.1\"?>", "<?xml version=\"1.0\"?><!-- c -->\n<?p d?>\n", "<!-- c -->", "\n", "<!DOCTYPE Sink>", "<?xml version=\"1.0\"?>\n<!DOCTYPE Sink>\n", "\u{feff}"]); let e = pick("e", &["", "\n", "<!-- e -->", "<?p?>"]); same::<Sink>(SINK, &cat!(p, SINK, e)); same::<Un>("<Un>B</Un>", &cat!(p, "<Un>B</Un>", e)); same::<Tx>("<Tx>B</Tx>", &cat!(p, "<Tx>B</Tx>", e)) }
  fn q_tag_space() { let w = pick("w", &["", " ", "\n", "\t ", "\r\n"]); let q = pick("q", &["\"", "'"]); let eq = pick("eq", &["=", " = ", "= ", "\n="]); let s = if w.is_empty() { " " } else { w }; same::<Sink>(SINK, &cat!("<Sink", s, "a", eq, q, "1", q, s, "n", eq, q, "-2", q, w, "><i", w, ">3</i", w, "><s>x</s><v", w, ">4</v><v>5</v", w, "><p", s, "k", eq, q, "6", q, w, ">t</p><l k='7'>u</l><e", w, "><B", w, ">y</B", w, "></e", w, "><w>ww</w><z>8</z><d><d k=\"1\"><s>9</s></d><d", w, "/><o><s>2</s></o></d></Sink", w, ">")) }
  fn q_empty_form() { let f = |n: &str| if flag(n) { cat!("<", n, "/>") } else { cat!("<", n, "></", n, ">") }; match choice("t", 5) { 0 => reads(&cat!("<Four>", f("a"), f("c"), f("d"), "</Four>"), &Four { a: "".into(), b: None, c: vec!["".into()], d: Some(Leaf { s: None, k: None }) }), 1 => reads(&f("Tx"), &Tx { t: "".into() }), 2 => reads(&f("Deep"), &Deep { d: vec![], o: None }), 3 => reads(&cat!("<Cd>", f("c"), "<n>1</n></Cd>"), &Cd { c: "".into(), n: 1 }), _ => reads(&cat!("<Ev>", f("B"), "</Ev>"), &Ev::B("".into())) } }
  fn q_empty_form2() { let k = flag("k"); let x = if k { "<t kind=\"B\"/><v kind=\"A\"/>" } else { "<t kind=\"B\"></t><v kind=\"A\"></v>" }; reads(&cat!("<Ht>", x, "</Ht>"), &Ht { t: Tg::B, v: vec![Tg::A], k: None }); reads(if k { "<Ev><C k=\"1\"/></Ev>" } else { "<Ev><C k=\"1\"></C></Ev>" }, &Ev::C(Leaf { s: None, k: Some(1) })); reads(if k { "<At a=\"1\" c=\"1\"/>" } else { "<At a=\"1\" c=\"1\"></At>" }, &At { a: "1".into(), b: None, c: true, d: None }) }
  fn q_spell_elem() { let c = cc("c"); let h = choice("how", 6); let t = cat!("x", spell(c, h), "y"); let v = cat!("x", (c as char).to_string(), "y"); match choice("w", 5) { 0 => reads(&cat!("<Four><a>", t, "</a><c>", t, "</c></Four>"), &Four { a: v.clone(), b: None, c: vec![v], d: None }), 1 => reads(&el("Tx", &t), &Tx { t: v }), 2 => reads(&cat!("<Cd><c>", t, "</c><n>1</n></Cd>"), &Cd { c: v, n: 1 }), 3 => reads(&cat!("<Ev><B>", t, "</B></Ev>"), &Ev::B(v)), _ => reads(&cat!("<Leaf><s>", t, "</s></Leaf>"), &Leaf { s: Some(v), k: None }) } }
  fn q_spell_alone() { let c = cc("c"); let h = choice("how", 6); let t = spell(c, h); let v = (c as char).to_string(); match choice("w", 4) { 0 => reads(&cat!("<Four><a>", t, "</a><c>", t, "</c></Four>"), &Four { a: v.clone(), b: None, c: vec![v], d: None }), 1 => reads(&el("Tx", &t), &Tx { t: v }), 2 => reads(&cat!("<Cd><c>", t, "</c><n>1</n></Cd>"), &Cd { c: v, n: 1 }), _ => reads(&cat!("<Ev><B>", t, "</B></Ev>"), &Ev::B(v)) } }
  fn q_spell_attr() { let c = cc("c"); let h = choice("how", 6); assume(h != 3); let q = if c == b'"' { "'" } else { "\"" }; let t = spell(c, h); let v = cat!("x", (c as char).to_string()); reads(&cat!("<At a=", q, "x", t, q, " c='1'/>"), &At { a: v, b: None, c: true, d: None }) }
  fn q_spell_num() { let (c, n) = digit("c"); let h = pick("how", &[0u8, 1, 2, 3]); let c = concretize(c as u64) as u8; let t = spell(c, h); reads(&cat!("<Nm x='1", if h == 3 { (c as char).to_string() } else { t.clone() }, "'><a>", t, "</a><b>1", t, "</b><c>-", t, "</c><d>&#49;</d><e>", t, "</e></Nm>"), &Nm { a: n as i8, b: 10 + n as u16, c: -(n as i64), d: true, e: n as f32, v: vec![], x: 10 + n }) }
  fn q_spell_unit() { let h = choice("how", 4); let t = spell(b'B', h); reads(&el("Un", &t), &Un::B); reads(&cat!("<Hold><u>", t, "</u><v>", t, "</v><s>A</s></Hold>"), &Hold { u: Un::B, o: None, v: vec![Un::B], s: "A".into() }); reads(&cat!("<At a='' c='1' d='", if h == 3 { "B".to_string() } else { t }, "'/>"), &At { a: "".into(), b: None, c: true, d: Some(Un::B) }) }
  fn q_spell_mix() { // any visible character as itself, in CDATA, and after an entity
    let c = vc("c"); let s = (c as char).to_string(); let t = cat!(esc(&s), "<![CDATA[", s, "]]>&amp;<![CDATA[", s, "]]>", esc(&s)); let v = cat!(s, s, "&", s, s); reads(&el("Tx", &t), &Tx { t: v.clone() }); reads(&cat!("<Four><a>", t, "</a><c>", t, "</c></Four>"), &Four { a: v.clone(), b: None, c: vec![v], d: None }) }
  fn q_spell_uni() { let n = choice("len", 3) + 2; let u = uni("u", n); reads(&cat!("<Tx><![CDATA[", u, "]]></Tx>"), &Tx { t: u.clone() }); reads(&cat!("<Leaf><s>", u, "</s></Leaf>"), &Leaf { s: Some(u), k: None }) }
  fn q_spell_uni_ref() { let (r, v) = pick("r", &[("&#233;", "\u{e9}"), ("&#x20AC;", "\u{20ac}"), ("&#x1F600;", "\u{1f600}"), ("&#128512;", "\u{1f600}"), ("&#x10FFFF;", "\u{10ffff}"), ("&#xD7FF;", "\u{d7ff}"), ("&apos;&quot;", "'\""), ("&lt;&gt;", "<>"), ("&amp;amp;", "&amp;"), ("&#38;#60;", "&#60;")]); reads(&el("Tx", r), &Tx { t: v.into() }); reads(&cat!("<At a='", r, "' c='0'/>"), &At { a: v.into(), b: None, c: false, d: None }) }
  fn q_line_ends() { let w = pick("w", &["\n", "\r\n", "\r"]); let d = cat!("<Four>", w, "<a>x", w, "y</a>", w, "<d/></Four>"); let v = must::<Four>(&d); check!(v.a == "x\ny" || v.a == cat!("x", w, "y"), "value read differs"); check!(v.d.is_some(), "value read differs"); cover(0) }
  fn k_pi_inside_elem() { same::<Four>("<Four><a>xy</a></Four>", "<Four><a>x<?p d?>y</a></Four>") }
  fn q_pi_inside_text() { same::<Tx>("<Tx>xy</Tx>", "<Tx>x<?p d?>y</Tx>") }
}
