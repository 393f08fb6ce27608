use util::*;
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Sink { #[yaserde(attribute = true)] a: Option<u8>, #[yaserde(attribute = true)] n: Vec<i8>, i: i16, s: Option<String>, v: Vec<u8>, b: Option<bool>, f: Option<f32>, p: Option<Part>, #[yaserde(default = "df")] l: u8, e: Ev, w: Option<Leaf>, #[yaserde(default = "ds")] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Part { #[yaserde(attribute = true)] k: u8, #[yaserde(attribute = true)] o: Option<String>, #[yaserde(text = true)] t: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Leaf { s: Option<String>, #[yaserde(attribute = true)] b: Option<bool> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Ev { #[default] A, B(String), C(Part), D(u8), E(Leaf), #[yaserde(rename = "x-y")] F(i16) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Txt { #[yaserde(text = true)] t: Option<String>, k: Option<u8>, #[yaserde(cdata = true)] c: String }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Str { s: String, o: Option<String>, v: Vec<String>, #[yaserde(attribute = true)] a: Option<String>, x: Option<Leaf> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct List { a: Vec<u8>, b: Vec<String>, c: Vec<Pair>, d: Vec<Ev> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Pair { a: Option<u8>, b: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fl { #[yaserde(attribute = true)] i: Option<u8>, a: Option<u8>, #[yaserde(flatten = true)] f: Fp, #[yaserde(flatten = true)] g: Option<Fq>, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fp { #[yaserde(attribute = true)] j: Option<u8>, b: Option<u8>, c: Vec<Pair>, s: Option<String> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Fq { q: u8, p: Option<Pair> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ff { a: Option<u8>, #[yaserde(flatten = true)] e: Fe, z: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(flatten = true)]
enum Fe { #[default] A, B(String), C(Part) }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Ht { #[yaserde(attribute = true)] e: Un, t: Tg, v: Vec<Tg> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
enum Un { #[default] A, B, #[yaserde(rename = "c-d")] C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)]
#[yaserde(tag = "kind")]
enum Tg { #[default] A, B, #[yaserde(rename = "c-d")] C }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab", "m" = "cd" })]
struct Ns { #[yaserde(prefix = "n")] s: Option<u8>, #[yaserde(prefix = "n")] p: Option<Np>, #[yaserde(prefix = "m")] q: Vec<u8>, o: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
#[yaserde(prefix = "n", namespaces = { "n" = "ab" })]
struct Np { #[yaserde(attribute = true, prefix = "n")] k: Option<u8>, #[yaserde(prefix = "n")] s: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Rec { n: Vec<Rec>, o: Option<Box_>, s: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Box_ { n: Vec<Rec>, s: Option<u8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Num { #[yaserde(attribute = true)] x: i8, #[yaserde(attribute = true)] y: Option<u16>, #[yaserde(attribute = true)] z: bool, a: u8, b: i32, c: Option<u64>, d: bool, e: Vec<i64>, f: f64, g: Option<f32> }
#[derive(yaserde::PrimitiveYaSerde, PartialEq, Debug)]
struct Wr8(i8);
#[derive(yaserde::HexBinaryYaSerde, PartialEq, Debug)]
struct Hx(u16);
impl Hx { fn from_bits(b: u16) -> Option<Self> { Some(Hx(b)) } }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Wraps { w: Wr8, v: Vec<Wr8>, h: Option<Hx>, #[yaserde(attribute = true)] a: Option<Wr8> }
#[derive(YaSerialize, YaDeserialize, PartialEq, Debug)]
struct Gn<T: YaSerialize + YaDeserialize> { t: Option<T>, v: Vec<T>, z: Option<u8> }
fn df() -> u8 { 7 }
fn ds() -> String { "d".into() }
/// What a document is read as can be written, reads back as the same value, and is then written in the same way.
fn stable<T: YaSerialize + YaDeserialize + PartialEq>(d: &[u8]) {
  observe(d);
  let r: Result<T, String> = yaserde::de::from_reader(d);
  if let Ok(v) = r {
    let s = ser(&v);
    match de::<T>(&s) { Ok(w) => { check!(w == v, "a value read from a document changes when it is written and read again"); check!(ser(&w) == s, "what is written changes when it is read and written again") } Err(_) => violation("a value read from a document can't be read again once it is written") }
    cover(1)
  }
  cover(0)
}
/// `N` symbolic visible characters or blanks put over or before a byte of the document.
fn hole<const N: usize>(d: &str) -> Vec<u8> { let over = flag("over"); let at = choice("at", d.len() as u8) as usize; let b = bytes::<N>("b"); for c in b { assume(c >= b' ' && c < 127) } let d = d.as_bytes(); let skip = if over { N.min(d.len() - at) } else { 0 }; [&d[..at], &b[..], &d[at + skip..]].concat() }
fn put<const N: usize>(d: &str) -> Vec<u8> { let (a, z) = d.split_once('@').unwrap(); let b = bytes::<N>("b"); for c in b { assume(c >= b' ' && c < 127) } [a.as_bytes(), &b[..], z.as_bytes()].concat() }
fn tr<T: YaSerialize + YaDeserialize + PartialEq>(n: &Node) { stable::<T>(n.xml().as_bytes()) }
/// Character data in one of its spellings.
fn coded() -> String { let c = vis::<1>("c"); match choice("form", 9) { 0 => cat!("a", esc(&c), "b"), 1 => { assume(c != "]"); cat!("<![CDATA[", c, "]]>") } 2 => { let h = bytes::<2>("h"); for c in h { assume(c.is_ascii_digit() || (c >= b'a' && c <= b'f')) } assume(h[0] >= b'2'); cat!("&#x", String::from_utf8(h.to_vec()).unwrap(), ";") } 3 => cat!(pick("e", &["&lt;", "&gt;", "&amp;", "&quot;", "&apos;"]), esc(&c)), 4 => cat!("<!-- <a> -->", esc(&c), "<!---->"), 5 => cat!("a<?p i?>", esc(&c)), 6 => { assume(c != "]"); cat!("x<![CDATA[<b>", c, "</b>&amp;]]>y") } 7 => cat!("]]&gt;", esc(&c), "<![CDATA[]]]]><![CDATA[>]]>"), _ => cat!("a &#9;&#10;", esc(&c)) } }
const SINK: &str = "<Sink a='1' n='2 3'><i>3</i><s>x</s><v>4</v><b>1</b><f>5</f><p k='6'>t</p><l>7</l><e><B>y</B></e><w/><z>8</z></Sink>";
harnesses! {
  fn q_words() { let w = word("w"); let n = wname("n"); assume(n == "nil" || w == "nil"); let e = esc(&w); stable::<Str>(cat!("<Str a=\"", esca(&w), "\"><", n, " ", n, "=\"1\">", e, "</", n, "><s>", e, "</s><o>", e, "</o><v>", e, "</v></Str>").as_bytes()); stable::<Part>(cat!("<", n, " k=\"1\" o=\"", esca(&w), "\">", e, "</", n, ">").as_bytes()) }
  // one or two arbitrary characters anywhere
  fn q_sink() { stable::<Sink>(&hole::<1>(SINK)) }
  fn q_part() { stable::<Part>(&hole::<2>("<Part k='6' o='x'>t</Part>")) }
  fn q_leaf() { stable::<Leaf>(&hole::<2>("<Leaf b='1'><s>u</s></Leaf>")) }
  fn q_enum() { stable::<Ev>(&hole::<2>(pick("d", &["<Ev><C k='1'>2</C></Ev>", "<Ev><B>x</B></Ev>", "<Ev>A</Ev>", "<Ev><x-y>-1</x-y></Ev>"]))) }
  fn q_flat() { stable::<Fl>(&hole::<1>("<Fl i='1' j='2'><a>3</a><b>4</b><c><a>5</a></c><s>t</s><q>6</q><p/><z>7</z></Fl>")) }
  fn q_flat_enum() { stable::<Ff>(&hole::<1>("<Ff><a>1</a><C k='2'>x</C><z>3</z></Ff>")) }
  fn q_tag() { stable::<Ht>(&hole::<1>("<Ht e='B'><t kind='A'/><v kind='B'></v><v kind='c-d'/></Ht>")) }
  fn q_ns() { stable::<Ns>(&hole::<1>("<n:Ns xmlns:n='ab' xmlns:m='cd'><n:s>1</n:s><n:p n:k='2'><n:s>3</n:s></n:p><m:q>4</m:q><o>5</o></n:Ns>")) }
  fn q_num() { stable::<Num>(&hole::<1>("<Num x='1' y='2' z='0'><a>3</a><b>4</b><c>5</c><d>1</d><e>6</e><f>7</f><g>8</g></Num>")) }
  fn q_wraps() { stable::<Wraps>(&hole::<2>("<Wraps a='1'><w>2</w><v>3</v><h>4f</h></Wraps>")) }
  fn q_txt() { stable::<Txt>(&hole::<2>("<Txt>a<k>1</k>b<c>x</c></Txt>")) }
  fn q_rec() { stable::<Rec>(&hole::<1>("<Rec><n><n/><o><n/><s>1</s></o></n><s>2</s></Rec>")) }
  fn q_gen() { stable::<Gn<Part>>(&hole::<1>("<Gn><t k='1'>x</t><v k='2'/><v k='3'>y</v></Gn>")) }
  // every spelling of a literal
  fn q_lit() { match choice("w", 7) { 0 => stable::<Num>(&put::<3>("<Num x='@' y='2' z='0'><a>3</a><b>4</b><d>1</d><f>7</f></Num>")), 1 => stable::<Num>(&put::<3>("<Num x='1' z='0'><a>@</a><b>4</b><d>1</d><f>7</f></Num>")), 2 => stable::<Num>(&put::<3>("<Num x='1' z='0'><a>1</a><b>@</b><d>1</d><f>7</f></Num>")), 3 => stable::<Num>(&put::<3>("<Num x='1' z='0'><a>1</a><b>4</b><c>@</c><d>true</d><e>-1</e><f>7</f></Num>")), 4 => stable::<Wraps>(&put::<3>("<Wraps><w>@</w></Wraps>")), 5 => stable::<Wraps>(&put::<3>("<Wraps><w>1</w><h>@</h></Wraps>")), _ => stable::<Num>(&put::<2>("<Num x='1' z='0'><a>1</a><b>4</b><d>1</d><e>@</e><f>7</f></Num>")) } }
  fn q_lit_bool() { let b = pick("b", &["true", "false", "1", "0", "TRUE", "yes", ""]); stable::<Num>(cat!("<Num x='1' z='", pick("z", &["true", "false", "1", "0"]), "'><a>1</a><b>4</b><d>", b, "</d><f>7</f></Num>").as_bytes()) }
  fn q_lit_float() { let d = digit("d").0.to_string(); let f = pick("f", &["@", "@.5", ".@", "@.", "1e@", "-1E-@", "+@", "@e30", "0.000@", "inf", "-infinity", "16777217@", "3.4028236e3@", "1e-4@", "00@", "@_", "0x@", "99999999999999999999@"]); let x = f.replace('@', &d); stable::<Num>(cat!("<Num x='1' z='1'><a>1</a><b>4</b><d>1</d><f>", x, "</f><g>", x, "</g></Num>").as_bytes()) }
  // character data and attribute values in every spelling
  fn q_coded() { let x = coded(); let d = match choice("at", 6) { 0 => cat!("<Str><s>", x, "</s></Str>"), 1 => cat!("<Str><s/><o>", x, "</o></Str>"), 2 => cat!("<Str><s/><v>1</v><v>", x, "</v><v/></Str>"), 3 => cat!("<Str><s/><x><s>", x, "</s></x></Str>"), 4 => cat!("<Str>", x, "<s>", x, "</s><q>", x, "</q></Str>"), _ => cat!("<Str><s><![CDATA[]]></s><x>", x, "</x></Str>") }; stable::<Str>(d.as_bytes()) }
  fn q_coded_text() { let x = coded(); match choice("at", 5) { 0 => stable::<Txt>(cat!("<Txt>", x, "<c/></Txt>").as_bytes()), 1 => stable::<Txt>(cat!("<Txt><c>", x, "</c><k>1</k></Txt>").as_bytes()), 2 => stable::<Txt>(cat!("<Txt>u<c>", x, "</c>", x, "</Txt>").as_bytes()), 3 => stable::<Part>(cat!("<Part k='1'>", x, "</Part>").as_bytes()), _ => stable::<Ev>(cat!("<Ev><B>", x, "</B></Ev>").as_bytes()) } }
  fn q_coded_attr() { let c = vis::<1>("c"); let v = match choice("form", 4) { 0 => cat!(" ", esca(&c), " "), 1 => cat!(pick("e", &["&lt;", "&quot;", "&#10;", "&#x9;", "&#13;", "&#xe9;", "&#x20ac;", "&amp;lt;"]), esca(&c)), 2 => { assume(c != "\"" && c != "&" && c != "<"); c } _ => cat!("a\n\t", esca(&c)) }; if flag("str") { stable::<Str>(cat!("<Str a=\"", v, "\"><s/></Str>").as_bytes()) } else { stable::<Part>(cat!("<Part k='1' o=\"", v, "\"/>").as_bytes()) } }
  fn q_uni() { let n = choice("n", 3); let c = uni("c", n + 2); match choice("at", 3) { 0 => stable::<Str>(cat!("<Str a='", c, "'><s>", c, "</s></Str>").as_bytes()), 1 => stable::<Txt>(cat!("<Txt>", c, "<c>", c, "</c></Txt>").as_bytes()), _ => stable::<Ev>(cat!("<Ev><B>", c, "</B></Ev>").as_bytes()) } }
  // arbitrary arrangements of elements
  fn q_tree_list() { tr::<List>(&tree(4)) }
  fn q_tree_flat() { tr::<Fl>(&tree(4)) }
  fn q_tree_gen() { tr::<Gn<Pair>>(&tree(4)) }
  fn q_tree_rec() { tr::<Rec>(&tree(5)) }
  fn q_tree_attr() { tr::<Fl>(&shape(pick("s", &["(@@(@d)(d))", "(@(d)Q(d)@(t))", "(C(@A(d))C()S(t)@)", "(Q(d)P((d)@)(d))"]))) }
  fn q_tree_sink() { let k = name::<1>("k"); let c = vis::<1>("c"); let d = cat!("<Sink n=' '><i>1</i><e><D>2</D></e><", k, ">", esc(&c), "</", k, "><", k, " k='3' b='true'><s>4</s></", k, "></Sink>"); stable::<Sink>(d.as_bytes()) }
  fn q_enum_forms() { let v = pick("v", &["A", "B", "C", "D", "E", "x-y", "q"]); let c = vis::<1>("c"); let w = pick("w", &["A", "B", "D"]); let e = match choice("f", 6) { 0 => esc(v), 1 => cat!("<", v, ">", esc(&c), "</", v, ">"), 2 => cat!("<", v, " k='1' b='0'><s>", esc(&c), "</s></", v, ">"), 3 => cat!("<", v, " k='1'/><", w, ">1</", w, ">"), 4 => cat!(w, "<", v, " k='1'>2</", v, ">"), _ => cat!("<", v, " k='1'>2</", v, ">", w) }; if flag("item") { stable::<List>(cat!("<List><d>", e, "</d><d>A</d></List>").as_bytes()) } else { stable::<Ev>(cat!("<Ev>", e, "</Ev>").as_bytes()) } }
  fn q_prefixes() { let p = name::<1>("p"); let q = name::<1>("q"); let u = pick("u", &["ab", "cd", "ef"]); if p != q { stable::<Ns>(cat!("<", p, ":Ns xmlns:", p, "='ab' xmlns:", q, "='", u, "'><", q, ":s>1</", q, ":s><", p, ":p ", q, ":k='2'/><", q, ":q>3</", q, ":q><s>4</s></", p, ":Ns>").as_bytes()) } }
  fn t_sink() { stable::<Sink>(&hole::<2>(SINK)) }
  fn t_flat() { stable::<Fl>(&hole::<2>("<Fl i='1' j='2'><a>3</a><b>4</b><c><a>5</a></c><s>t</s><q>6</q><p/><z>7</z></Fl>")) }
  fn t_num() { stable::<Num>(&hole::<2>("<Num x='1' y='2' z='0'><a>3</a><b>4</b><c>5</c><d>1</d><e>6</e><f>7</f><g>8</g></Num>")) }
  fn t_ns() { stable::<Ns>(&hole::<2>("<n:Ns xmlns:n='ab' xmlns:m='cd'><n:s>1</n:s><n:p n:k='2'/><m:q>4</m:q></n:Ns>")) }
  fn t_tag() { stable::<Ht>(&hole::<2>("<Ht e='B'><t kind='A'/><v kind='B'></v></Ht>")) }
  fn t_rec() { stable::<Rec>(&hole::<2>("<Rec><n><n/><o><n/><s>1</s></o></n><s>2</s></Rec>")) }
  fn t_flat_enum() { stable::<Ff>(&hole::<2>("<Ff><a>1</a><C k='2'>x</C><z>3</z></Ff>")) }
}
