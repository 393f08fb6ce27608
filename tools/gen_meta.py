#!/usr/bin/env python3
"""Writes h/pNN/meta.json (bounds and assumptions shown in the evidence) and the per-property section of DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
def p(i, oracle, bounds, out, why=''): M[i] = (oracle, bounds, out, why)
p('P01', 'from_str(to_string(v)) == v, comparison made inside the harness on symbolic values; the written document is an observation',
  ['8-bit integers: every value; 16-bit: every value in thorough; wider integers: 8 symbolic bits around every power of two, both limits and zero',
   'floats: sign/exponent/limit patterns with symbolic low bits, NaN and infinities', 'text: every string of <= 4 (quick) / 6 (thorough) visible ASCII characters with blanks inside, every 2/3/4-byte character in context; every length 0..70 and lengths around powers of two up to 1025 with symbolic characters at the ends',
   'options and lists: every presence; list lengths 0..3 with symbolic items, 7..100 with one symbolic item; field names: plain, one a prefix of another, raw identifiers, renamed'],
  ['text with leading/trailing whitespace or control characters (the reader trims insignificant whitespace; documented limit)', 'arithmetic on fully symbolic 64-bit decimal conversion (the bits outside the window are fixed)'])
p('P02', 'from_str(to_string(v)) == v for attribute structs',
  ['every attribute type, alone and optional; strings: every string of <= 3 (quick) / 4 (thorough) ASCII XML characters including tab, CR, LF, quotes, < and &; every 2/3/4-byte character',
   'neighbouring attributes with equal/prefix names, six optional attributes with every presence, attribute structs nested, in lists and beside text', 'lists in attributes: 0..3 items of each item type with symbolic item, up to 100 items', 'lengths 0..70 and around powers of two up to 1024', 'attributes with the prefixes documents usually bind (xsi, xlink, xml)'],
  ['attributes of struct type (written as escaped content; their round trip is not claimed)', 'list items containing whitespace (a list attribute is separated by whitespace)', 'control characters other than tab, CR, LF'])
p('P03', 'from_str(to_string(v)) == v for nested declarations',
  ['every presence of optional parts, lists of 0..2 (symbolic leaf) and up to 70 items; every tree of <= 3 (quick) / 5 (thorough) nodes of a recursive type; chains up to 260 levels',
   'one symbolic leaf at a time (1..4 characters, 6 in thorough); CDATA content with every marker ("]]>", "]]", "<![CDATA[", "--", "?>") between symbolic characters', '"places": each kind of part (struct, flattened, enum, wrapper, text) alone, in a list, optional, twice and at two levels with the same names'],
  ['two symbolic leaves of more than one character at once', 'nesting deeper than 260'])
p('P04', 'from_str(to_string(v)) == v for enums',
  ['every variant of: unit, primitive, string, struct, optional, list payloads; tagged; as attribute; nested enums; flattened variants; the enum as root, field, optional field, list item; neighbours and text equal to variant names',
   'payload texts of <= 3 (quick) / 4 (thorough) characters and every multi-byte character; numeric payloads with 8 symbolic bits', 'all twelve primitive types as payload, in a list, under a rename, beside units, and with an unreadable payload text', 'lists of payloads 1..3, up to 65'],
  ['struct-like variants (serialization only in yaserde)', 'flattened variants whose name is not the root name of the payload', 'payloads with namespaces (P06)', 'Option::None and empty Vec payloads: known findings k_opt_none, k_vec_empty'])
p('P05', 'from_str(to_string(v)) == v for declarations with flatten',
  ['flattened structs (nested, optional, with attributes, with text), flattened enums (every variant), several flattened parts in one struct, flattened root types, fields of the same name in ordinary and flattened parts at different levels',
   'one symbolic leaf (<= 3 characters) at a time, every presence; lists up to 40', 'texts and attributes of 129..8194 characters in flattened parts'],
  ['Option<flattened> whose parts are all optional and absent (reads as Some(default): indistinguishable)', 'the same element name claimed by two flattened parts'])
p('P06', 'expected bytes for writing; for reading, a model that resolves the (symbolic) prefix or URI and says whether the element is the configured one',
  ['every prefix of <= 2 symbolic letters, swapped, shadowed and rebound; every URI of 2 symbolic characters; every URI one symbolic insertion, substitution, deletion or cut away from the configured one; the configured one with any character, blank or coded character more', 'default namespace, nested types with their own namespaces, attributes, enums, options', 'six combinations of the namespaces of a host, its fields and its parts, for required, optional, repeated, flattened and enum-held parts, written and read back; every binding of their prefixes'],
  ['prefixes of more than 2 symbolic characters', 'a default namespace over names configured without a prefix, one prefix for two namespaces in a type and its part (both cannot be written)', 'attribute and enum-variant namespaces on reading: known findings k_attr_ns, k_variant_ns'])
p('P07', 'an independent reference rendering written in the harness (string concatenation with its own escaping), compared byte for byte',
  ['every kind of field (numbers of each width, bool, floats, char, usize/isize, text, CDATA, attribute, list attribute, struct, option, list, list of options, enum in each position, flattened, generic, raw identifiers, renamed, namespaces), struct-like variants',
   'text/attribute values of <= 2 symbolic characters (3 in thorough) at each place, lengths up to 1000, lists up to 60', 'CDATA of four marks (]]>, ], >, <![CDATA[) around a symbolic character'],
  ['float formatting (the reference uses the same std formatting)', 'attribute order beyond declaration order'])
p('P08', 'no panic, no arithmetic overflow (overflow checks are compiled in), no out-of-bounds access, and the path ends within 5e7 instructions: engine-level checks on every path',
  ['arbitrary documents: every byte string of <= 4 bytes after a start tag; every document of a type with 1..3 symbolic bytes inserted or overwritten at every position of a skeleton; symbolic element and attribute names at every level; symbolic cut position',
   'seven reader configurations (white space, CDATA, comments, pieces, end of stream) besides yaserde\'s own; a reader used again after a value, an error or the end; depth up to 60, width up to 70, names/values/URIs/digits up to 1025 characters'],
  ['allocation failure and stack exhaustion by very deep nesting', 'more than 4 adjacent arbitrary bytes'])
p('P09', 'from_str must return Err: for every proper prefix of a document up to the end of the root element, for every mismatched tag',
  ['every cut position of 17 documents covering every kind of declaration (cut position symbolic), and of documents written for symbolic values', 'end-tag names symbolic; attribute syntax errors, entities with a symbolic character, second roots, depth up to 30, length up to 2000'],
  ['what follows the root element (not read by yaserde; documented limit)'])
p('P10', 'reading with unknown content inserted == reading without (computed by the same code, which P23 pins to the independent model)',
  ['unknown elements at every position with names equal to known ones inside, unknown attributes at every element, unknown names of 1..3 symbolic letters or one edit away from a declared element, attribute, tag or variant name, stray text at every position',
   'depth up to 300, repetition up to 70, lengths up to 1025'], ['unknown namespaces declared with symbolic URIs'])
p('P11', 'reading a rewritten spelling == reading the canonical one',
  ['every permutation of 4..5 children and of 4 attributes for each kind of type; comments, processing instructions and blanks at every position; every printable character spelled literally, as decimal/hex reference, as CDATA, as entity, in every kind of place; every 2/3/4-byte character; prologs, tag spacing, quotes, empty-element forms'],
  ['whitespace around text (insignificant for yaserde)', 'a processing instruction inside the text of a simple element: known finding k_pi_inside_elem'])
p('P12', 'a table of expected results per presence subset, written independently',
  ['every subset of present fields for each kind of declaration (element/attribute/text/CDATA/flattened/nested/namespaced/enum; every primitive type, required, optional and defaulted), with a symbolic value in one', 'defaults equal to the value, to the zero value, empty'],
  ['defaults on Option/Vec fields (only affect writing)'])
p('P13', 'reference rendering with its own decision of what is omitted',
  ['for each attribute skip_serializing / skip_serializing_if / default and combinations, on elements, attributes, text, CDATA, flattened, nested, namespaced fields: the deciding value symbolic (full byte or <= 2 characters) one at a time, and all on/off combinations together', 'all twelve primitive types on elements and attributes, with every combination of default and skipped'], ['predicates with side effects'])
p('P14', 'a sink that fails at a symbolic write call / after a symbolic number of bytes: result must be Err, and the bytes accepted must be a prefix of the reference document; Ok only with all of it',
  ['every fault position for one value of each kind of declaration (19 kinds), with <= 2 symbolic characters', 'sinks that accept part of a buffer, that fail once and recover, that return zero; indentation on/off'],
  ['flush is not part of the contract (yaserde never flushes)'])
p('P15', 'reading from a split/failing/interrupted stream == from_str of the same bytes; error before the end of the root => Err',
  ['every two-piece split and every fixed chunk size of 12 documents, every failure position; two arbitrary symbolic bytes in text, tag, attribute, reference, CDATA, prolog and around; multi-byte characters split at every byte'],
  ['more than two independent split points (chunk size patterns instead)'])
p('P16', 'a reference event list produced next to the document; position and depth are recomputed after each operation',
  ['every sequence of 3..5 (quick) / 6 (thorough) operations (8 kinds) on generated documents and every starting point; element names of 2 symbolic letters; namespaces of 2 symbolic characters; depth up to 40'], ['using a Deserializer after it returned an error'])
p('P17', 'an independent parser of the literals in the harness (integers by digit arithmetic, floats by table or exact value)',
  ['every literal of <= 3 (quick) / 4..5 (thorough) visible characters for every type, in 7 places (element, attribute, option, list, attribute list, enum payload, ...); edges of each type with one symbolic digit/character around',
   'bool: every word of <= 6 letters in the quick tier by pattern; floats: every text of <= 2 characters, hard rounding cases by table, tails symbolic'],
  ['float literals of > 2 fully symbolic characters (the decimal-to-binary algorithm multiplies symbolic 128-bit numbers)'])
p('P18', 'reference text for writing; independent parser for reading', ['wrapper types over u8/i64/bool/f64/String/nested/own FromStr types, hexBinary u8/u32/u64; 11 places; texts of <= 3 symbolic characters; coded spellings; neighbours'],
  ['hex text starting with "+" (accepted by the std parser)', 'hexBinary values: a sample of byte patterns by forking on nibbles for the wide types'])
p('P19', 'a layout-insensitive comparison of event structure, and equality of the values read back',
  ['every combination of the three options (five indent strings) for each kind of declaration, every presence, symbolic text of 1..3 characters'], ['indentation with text beside elements: only what the reader keeps'])
p('P20', 'reference rendering of each part alone; composition must be the concatenation', ['16 kinds of parts: every pair, triples, all subsets of nine; each enum variant before each; histories of earlier serializations and of earlier serializer states'],
  ['state left in a public Serializer after use (documented limit)'])
p('P21', 'the visit must return Err', ['all 12 visit kinds x 12 visitors that support one other kind, text of <= 3 arbitrary characters, control characters, and literals of other kinds'], [])
p('P22', 'an independent tree model in the harness that reads a document tree the way the declaration says',
  ['every tree of <= 5 (quick) / 6 (thorough) elements with symbolic one-letter names (about 50 further shapes up to 9 elements), for 8 kinds of declarations; recursion to 130, foreign parts to 300 elements'], ['names of more than one symbolic letter in trees (prefix names by list)'])
p('P23', 'an independent reader (tree model) in the harness compared with from_str, including which documents are refused',
  ['every tree of <= 4 (quick) / 5..6 (thorough) elements with symbolic names, attributes and digits for 4 kinds of declarations; codings of character data in every place; layout noise; attributes holding lists of <= 4 symbolic bytes; readers with four other settings'], ['elements with more than 2 symbolic attributes'])
p('P24', 'hand-written types that record the events shown to them, compared with an independent rendering of the same tree; an independent rendering for writing; the exact error text',
  ['every tree of <= 5 (quick) / 6 (thorough) elements with symbolic names and digits around required, optional, repeated, defaulted, generic, flattened and enum-held hand-written types; readers that stop on the closing tag or on their text; refusals decided by a symbolic digit',
   'writers with symbolic text and attribute in every position, leaving the serializer in four different states; a refusal at each of ten positions'], ['a hand-written reader that leaves unread child elements behind', 'the internal name of the element handed to a flattened hand-written type'])
p('P25', 'from_str / to_string of the same part alone (pinned by P23 and P07 to independent models)',
  ['every tree of <= 3..4 elements for 10 kinds of types, between every combination of a text or element before and after, peeked at before or not; streams of <= 3 elements', 'every sequence of two or three values of 12 fixed and 8 symbolic kinds, written under own, given or repeated names, with and without their element', 'flattened types (no element of their own) written before others'], ['namespaced types (a root in a wrong namespace is refused only as the root of a document)'])
p('P26', 'the expected value or document of each call, written in the harness; tree models; the sequence of events of each cursor alone',
  ['every pair of 42 calls with a symbolic digit, repeated; triples with five kinds of refused or failing calls between; every two trees of <= 2..3 elements of one type', 'ten documents before and after the same document cut anywhere or with one arbitrary visible character over or before any byte (thorough: two such); namespace pairs; eight values before and after one that no longer fits the sink, at every position', 'every schedule of 6 (quick) / 8 (thorough) operations on two cursors; three values written in turn with two serializers', 'each of the 42 calls inside the stream, the sink or a hand-written part of another read or write'], ['threads (yaserde has none; nothing is shared)'])
p('P27', 'equality of the value read and the value read back; equality of both documents',
  ['13 documents with 1..2 arbitrary visible characters over or before any byte; every literal of <= 3 visible characters in 6 places; float spellings with a symbolic digit; coded character data in 11 places; attribute values in 4 codings; every tree of <= 4..5 elements; enum content in 6 forms; prefixes and namespaces'], ['white space at the edges of text and control characters (not representable)', 'NaN', 'enum variants holding None or an empty list (known findings of P04)', 'fields that are not written'])
p('P28', 'the value and the document, built by repetition in the harness',
  ['texts of 1025..65537 characters (and 4097..65536 bytes of two-, three- and four-byte characters; 1025..16385 characters written as entities) in 11 places of a value, symbolic characters at the edges and in the middle', 'texts of 127..1025 pieces (entities, references, CDATA, comments); blanks, comments and instructions of <= 131074 characters in five places; numerals with <= 4097 zeros; names, values and namespaces of undeclared content of <= 65537 characters; prefixes of <= 4097', '127..1025 items (18 counts) in 9 kinds of lists, interleaved lists of <= 513 items, 127..1025 repeated or undeclared elements, <= 257 attributes, <= 129 namespaces', 'nesting of <= 301 levels of structs or enums, <= 4097 levels of undeclared elements', '<= 1025 values read from one stream, written to one serializer, or skipped and read with one cursor'], ['sizes beyond these and sizes that are not symbolic: lengths are chosen from a list, contents are symbolic', 'nesting deeper than the stack allows: reading and dropping recurse'])
for i, (o, b, x, w) in M.items():
    if "word(" in open("%s/h/%s/src/lib.rs" % (V, i.lower())).read(): b = b + ["every string, name and number the current source mentions, and well-known ones, in the places q_words and its like list"]
    json.dump({"bounds": b + ["outside: " + t for t in x], "assumptions": ["oracle: " + o]}, open("%s/h/%s/meta.json" % (V, i.lower()), "w"), indent=1)
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
s = ''
for q in P:
    o, b, x, w = M[q["id"]]
    s += "### %s %s\n\n*Oracle.* %s.\n\n*Bounds.* %s.\n\n" % (q["id"], q["title"], o, "; ".join(b))
    if x: s += "*Outside.* %s.\n\n" % "; ".join(x)
d = V + "/DESIGN.md"; t = open(d).read()
a, z = "<!-- properties -->\n", "<!-- end properties -->"
if a in t: open(d, "w").write(t[:t.index(a) + len(a)] + s + t[t.index(z):])
