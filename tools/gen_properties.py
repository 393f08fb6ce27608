#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

DS='yaserde_derive/src/de/expand_struct.rs'; DE='yaserde_derive/src/de/expand_enum.rs'
SS='yaserde_derive/src/ser/expand_struct.rs'; SE='yaserde_derive/src/ser/expand_enum.rs'
IS='yaserde_derive/src/ser/implement_serializer.rs'; EL='yaserde_derive/src/ser/element.rs'
FI='yaserde_derive/src/common/field.rs'; AT='yaserde_derive/src/common/attribute.rs'
DM='yaserde/src/de/mod.rs'; SM='yaserde/src/ser/mod.rs'; LI='yaserde/src/lib.rs'; PR='yaserde/src/primitives.rs'
DP='yaserde_derive/src/primitives.rs'

prop('P01','Child-element values survive a round trip',
 'For a struct whose fields are written as child elements (every supported integer type, bool, floats, strings, optional and repeated ones), deserializing what serialization produced gives back an equal value. This holds for every value the format can carry: all numbers, and all strings of XML characters without leading or trailing whitespace.',
 ['inputs'],'every value of each supported field type, singly and in combination with sibling fields',
 'tests serialize and parse a handful of literal values; the value space (all integers, all strings incl. markup characters and empty ones) is not sampled',
 [SS,EL,DS,LI,SM,DM],[('serialize_element / enclose_xml_event',EL),('build_call_visitor',DS),('derived Visitor::visit_*',DS)],
 ['yaserde::ser::to_string followed by yaserde::de::from_str'])
prop('P02','Attribute values survive a round trip',
 'For a struct whose fields are written as XML attributes (numbers, bool, strings, unit enums, optional ones, lists of values without whitespace), deserializing what serialization produced gives back an equal value, an absent optional attribute stays absent, and one attribute never takes the value of another. This holds for every string of XML characters including whitespace, quotes and markup characters.',
 ['inputs'],'every value of each supported attribute type, with several attributes side by side',
 'tests use a few literal attribute values; escaping, whitespace, quotes and neighbouring attribute names form an unbounded space',
 [SS,DS,IS,FI],[('struct_start_event.attr(..)',SS),('attributes_loading',DS),('ser_wrap_default_attribute',FI)],
 ['to_string / from_str on attribute structs'])
prop('P03','Composed structures survive a round trip',
 'Structures composed of other structures (nested, optional, repeated, self-similar names, text content, CDATA content, renamed, generic) deserialize from their own serialization to an equal value. Each value comes back in its own place: repetition counts, item order and which optional parts are present are preserved.',
 ['inputs'],'every shape within bounds: presence of each optional part, number of items, and symbolic leaf values, including element names repeated at several nesting levels',
 'each test fixes one shape; interactions between presence, counts and nesting of same-named elements are a product space',
 [SS,DS,IS,DM,SM],[('visit_struct',DS),('set_start_event_name / set_skip_start_end',SS),('depth counters','reader.depth / depth in '+DS)],
 ['to_string / from_str on nested types'],[('start_event_name, skip_start_end','how the next value opens its element',SM),('depth','how deep the cursor is',DM)])
prop('P04','Enums survive a round trip with their variant',
 'Every enum value (unit variants, variants carrying a primitive, string, struct, optional or repeated payload; named by element, by text, by attribute or by a tag attribute) deserializes from its own serialization to the same variant with an equal payload. A variant never comes back as another one.',
 ['inputs'],'every variant and every payload value within bounds, wherever the enum can be placed',
 'tests pick one payload per variant; text equal to a variant name, boundary numbers and markup payloads are unsampled',
 [SE,DE],[('parse_variant / match_to_enum',DE),('inner_enum_inspector',SE)],['to_string / from_str on enums as root, field, item, attribute'])
prop('P05','Flattened parts survive a round trip',
 'A struct that flattens other structs or enums into itself writes their elements and attributes at its own level and reads every part back to an equal value. Elements claimed by ordinary fields are not stolen by the flattened part, and the reverse.',
 ['inputs'],'every combination of leaf values, presence of optional flattened parts and interleaving of flattened with ordinary fields within bounds',
 'tests use two or three fixed documents; the flattened part is re-serialized into a buffer and parsed again, so every leaf value and kind of neighbour is a separate case',
 [DS,SS,IS],[('build_code_for_unused_xml_events',DS),('serialize_attributes',IS)],['to_string / from_str on flatten types'])
prop('P06','Namespaces are written as configured and enforced on reading',
 'Elements and attributes are written with exactly the prefixes and namespace declarations the type configures, whatever the values are. On reading, names are resolved by namespace and not by prefix spelling: any prefix bound to the configured namespace is accepted, an element in a different namespace is never taken for the configured one, and a root in a wrong namespace is refused.',
 ['inputs'],'every namespace URI and prefix spelling of bounded length on root, child and attribute positions, and every value',
 'tests check two or three literal prefixes and URIs; equality with the configured namespace must hold for all other spellings',
 [AT,FI,DS,DE,'yaserde_derive/src/ser/namespace.rs','yaserde_derive/src/ser/label.rs'],[('get_namespace_matching',AT),('prefix_namespace',FI),('generate_namespaces_definition','yaserde_derive/src/ser/namespace.rs')],
 ['from_str Ok/Err and to_string bytes'])
prop('P07','Output is exactly the prescribed, well-formed, escaped XML',
 'The document written for a value is exactly the one its declaration prescribes: element and attribute names as declared or renamed, attributes on the owning element, fields in declaration order, one element per item, and every value escaped so that an XML reader recovers it and no value can introduce markup.',
 ['inputs'],'every value within bounds of a declaration covering each kind of field',
 'golden strings in tests fix the values; injection through a value is a question over all values',
 [SS,SE,IS,EL,AT],[('implement_serializer',IS),('enclose_xml_event',EL),('xml_element_name / renamed_label',AT)],
 ['bytes of to_string compared with an independently written reference rendering'])
prop('P08','Reading any input terminates with a value or an error',
 'Whatever the input bytes are, deserialization returns a value or an error: it does not panic, overflow or run forever.',
 ['inputs'],'all documents within bounds: arbitrary text, arbitrary element and attribute names in any position of a document skeleton, unexpected nesting',
 'tests read documents written for the type; hostile documents (payload equal to a variant name, wrong root, child name at root) are a combinatorial space',
 [DS,DE,DM,PR],[('event loop of deserialize',DS),('event loop of deserialize',DE),('Deserializer::next_event',DM)],['from_str returns'])
prop('P09','Truncated or ill-formed documents are refused',
 'A document cut before its root element is closed, or whose tags do not match up to there, never yields a value: reading it returns an error.',
 ['inputs','crash_points'],'every cut position in documents covering each kind of field, and every mismatched closing name within bounds',
 'no test cuts documents; each cut position and value is a separate case',
 [DM,DS,DE],[('expect_end_element',DM),('EndDocument handling',DS)],['from_str / from_reader on every prefix'])
prop('P10','Unknown content is ignored without disturbing known fields',
 'Elements, attributes and nested content not declared by a type are skipped wherever they appear, and the fields that are declared read exactly as if the unknown content were absent.',
 ['inputs'],'every unknown element or attribute name of bounded length, at every position, with nested content that reuses declared names',
 'tests insert one or two fixed unknown elements',
 [DS,DM],[('skip_element',DM),('default arm of the element match',DS)],['from_str with and without the extra content'])
prop('P11','Child order and equivalent spellings do not change the result',
 'Reading is insensitive to the order of differently named child elements and of attributes, to the XML declaration, comments and processing instructions, to insignificant whitespace between elements, and to equivalent spellings of the same character data (entity, character reference, CDATA). Repeated elements keep their relative order.',
 ['inputs'],'every permutation and insertion position within bounds with symbolic values',
 'tests read one spelling of each document',
 [DM,DS],[('new_from_reader parser configuration; inner_next',DM)],['from_str on equivalent documents'])
prop('P12','Absent fields: required is an error, optional and default apply exactly',
 'When an element or attribute is absent, a required field makes reading fail, an optional one reads as none, a repeated one as empty, and one with a default function as that default; when present its own value is used, never the default. No subset of absent fields influences the others.',
 ['inputs'],'every subset of present fields, with every value for those present',
 'tests drop one field at a time in one document',
 [DS,'yaserde_derive/src/de/build_default_value.rs'],[('struct_builder / unwrap_or_else / ok_or_else',DS)],['from_str result'])
prop('P13','A field is omitted from output exactly when its declaration says so',
 'A field marked as skipped is never written, one with a skip condition is written exactly when the condition is false for its value, and one with a default is written exactly when it differs from the default; nothing else about the output depends on it. An omitted default field reads back as its default.',
 ['inputs'],'every value of the field and of its siblings, for attributes, elements, options, lists and nested types',
 'tests pick one value on each side of each condition',
 [EL,FI,SS],[('condition_generator',EL),('ser_wrap_default_attribute',FI)],['bytes of to_string'])
prop('P14','A failing writer is always reported',
 'If the output sink fails at any point, serialization returns an error and does not panic; success is reported only when the complete document was accepted by the sink.',
 ['inputs','fault_sequences'],'every failing position (number of bytes accepted before failure, and short writes) for every value within bounds',
 'no test uses a failing sink',
 [SM,SS,SE,LI,PR],[('writer.write(..).map_err',SS),('serialize_type!',LI),('serialize_primitives',PR)],['serialize_with_writer result against a faulty io::Write'])
prop('P15','Reading depends on the bytes only, not on how they arrive; read errors surface',
 'Reading from a stream gives the same result as reading the same bytes from memory however the stream splits them, and a read error before the root element is closed is reported as an error, never as a value.',
 ['inputs','fault_sequences'],'every split into short reads, every position of an injected read error, interrupted reads',
 'tests only read from complete in-memory strings',
 [DM],[('from_reader / Deserializer::new_from_reader',DM)],['from_reader with an arbitrary io::Read'])
prop('P16','Cursor operations keep position and depth consistent',
 'For any sequence of cursor operations on a document (peek, take, skip an element, read an element\'s content, expect a closing tag), peeking does not consume and equals the next event taken, depth equals opened minus closed elements, skipping consumes exactly the rest of the current element, and a closing tag is accepted only when it matches.',
 ['histories','inputs'],'every operation sequence up to a bounded length over bounded documents with symbolic names',
 'tests never drive the cursor directly; custom deserializers rely on any sequence working',
 [DM],[('peek / next_event / skip_element / read_inner_value / expect_end_element',DM)],['public methods of yaserde::de::Deserializer'],
 [('peeked','event looked at but not taken',DM),('depth','open elements',DM)])
prop('P17','A value is read only from a valid literal of its type',
 'A primitive field takes a value only from a valid literal of its type, with exactly the denoted value (for booleans true, false, 1 and 0); anything else - out of range, trailing characters, empty - never yields a made-up value: an attribute or required element makes reading fail, an optional or repeated element stays absent.',
 ['inputs'],'every literal text of bounded length in element, attribute, list-attribute and enum payload positions',
 'tests use valid literals and one or two invalid ones',
 [DS,DE,LI],[('visit_* with from_str',DS),('map_if_bool',DS)],['from_str result vs independently evaluated literal'])
prop('P18','Derived primitive wrapper types survive a round trip',
 'Types made serializable through their textual form (wrapper derive, hex-binary derive and the primitive derive) write exactly their textual form as element content and read it back to an equal value, as root, field, optional field and list item; text their parser refuses is an error, never a value.',
 ['inputs'],'every wrapped value and every element text within bounds',
 'tests check one or two values; the hexadecimal form is never read back',
 [DP,PR],[('primitive_yaserde / hexbinary_serde / primitive_serde',DP),('serialize_primitives / deserialize_primitives',PR)],['to_string / from_str'])
prop('P19','Formatting options change layout only',
 'Indentation, indent string and document declaration options change only insignificant layout: with every combination the output is well-formed, reads back to the same value, and with the default options equals the plain serialization.',
 ['inputs','configurations'],'every combination of options with every value within bounds',
 'tests print one or two formatted documents',
 [SM],[('Serializer::new_from_writer',SM)],['to_string_with_config / from_str'])
prop('P20','What a value looks like does not depend on its siblings or history',
 'The rendering of a part of a document depends only on that part and its declaration: not on values, presence or kind of the parts written before it, and the content-only rendering equals the inside of the full rendering. Serializing is deterministic and repeatable.',
 ['inputs','histories'],'every combination of preceding sibling values and kinds within bounds',
 'serializer state (pending element name, skip flag) leaks only for particular sibling combinations; tests fix one combination each',
 [SM,SS,SE,IS],[('set_start_event_name / set_skip_start_end',SM),('skip captured at entry',IS)],['bytes of to_string of composite vs parts'],
 [('start_event_name, skip_start_end','pending element name / suppress own tags',SM)])
prop('P21','Unsupported literal kinds are refused by default',
 'A value visitor that supports only some kinds of literal refuses every other kind with an error for every input text; it never fabricates a value or panics.',
 ['inputs'],'every visit kind and every text of bounded length',
 'no test calls the default methods',
 [LI],[('Visitor default methods',LI)],['yaserde::Visitor methods'])
prop('P22','Same-named content at different levels is never confused',
 'A field takes its value only from a direct child (or attribute) of its own element: content of the same name deeper inside other elements, in the document root, or in sibling structures never supplies or overrides it.',
 ['inputs'],'every placement of declared names at every level of a bounded document skeleton, with symbolic names and values',
 'tests cover a few hand-made collisions; the matching of names against nesting level is a product space',
 [DS,DE,DM],[('depth == 0 root handling; start_depth',DS),('Deserializer::depth',DM)],['from_str compared with an independent reference reader'])
prop('P23','Values are read exactly as the document says',
 'For every well-formed document of a bounded shape, the value read is the one an independent reading of the document gives: each declared field holds its element\'s or attribute\'s character data decoded (entities, references, CDATA), repeated elements in order, last of duplicated single elements, or the read fails when a required one is absent or invalid.',
 ['inputs'],'every document from a grammar with symbolic names, order, repetition, markup and text within bounds',
 'tests fix documents; the reading function over all documents is what users rely on',
 [DS,DE,DM],[('deserialize event loop',DS)],['from_str compared with an independent reference reader'])
prop('P24','Hand-written types compose with derived ones',
 'A type with its own YaDeserialize or YaSerialize implementation can stand wherever a derived one can (root, required, optional, repeated, defaulted, generic, enum payload, attribute, flattened). Its reader is called exactly once per element of its field and is shown exactly that element - name, attributes, content - and everything after it reads as usual; its writer is called with the name of its field and whether its own tags are wanted, whatever state it leaves; an error it returns is the result of the whole operation.',
 ['inputs'],'every tree document of bounded size with symbolic names, attributes and text; every presence and payload of hand-written values; the error at any position',
 'tests have two hand-written types in one place each',
 [DS,DE,'yaserde_derive/src/ser/expand_struct.rs','yaserde_derive/src/ser/expand_enum.rs','yaserde_derive/src/ser/implement_serializer.rs'],[('visit_struct',DS),('call_struct_visitor',DE),('implement_serializer','yaserde_derive/src/ser/implement_serializer.rs')],['what the hand-written reader saw; from_str and to_string results'])
prop('P25','Parts read or written in place equal the same read or written alone',
 'A value read with a cursor that stands at its element inside a larger document is the one read from that element as a document (and is refused exactly then), and the reader is left on the closing tag with the rest of the document undisturbed. A value written with a serializer in the middle of a document, after any other values, under its own or a given name or content only, is written as it is alone.',
 ['inputs','histories'],'every element of bounded size with symbolic names and text between siblings; every sequence of up to three values of ten kinds',
 'tests always read and write whole documents with a fresh reader and writer',
 [DS,DE,DM,'yaserde/src/ser/mod.rs','yaserde_derive/src/ser/implement_serializer.rs'],[('start_depth; loop exit on the own closing tag',DS),('skip_start_end and start_event_name','yaserde_derive/src/ser/implement_serializer.rs')],['T::deserialize on a Deserializer, T::serialize on a Serializer'],
 [('skip_start_end','whether the element of the next value is written','yaserde/src/ser/mod.rs'),('start_event_name','the name the next value is written under','yaserde/src/ser/mod.rs')])
prop('P26','Reads and writes do not influence each other',
 'The result of reading a document or writing a value does not depend on which other reads and writes took place before it (successful, refused or failed), on other readers and writers used in turn with it, or on reads and writes done inside of it (by a stream, a sink or a hand-written part). The same call always gives the same result.',
 ['inputs','histories','schedules'],'every ordered pair and, for selected failing ones, triple of calls with symbolic values; every two documents of bounded size; every bounded schedule of operations on two cursors and two writers',
 'a test makes one call; interference needs a particular history or schedule',
 [DS,DE,DM,'yaserde/src/ser/mod.rs','yaserde/src/primitives.rs','yaserde/src/lib.rs'],[('Deserializer / Serializer hold all state',DM),('serialize_primitives','yaserde/src/primitives.rs')],['from_str, to_string, cursor operations after, between and inside others'],
 [('depth, peeked, path','position of one cursor',DM),('skip_start_end, start_event_name','state of one serializer','yaserde/src/ser/mod.rs')])
prop('P27','What was read can be written and read again',
 'For every document a type accepts - however it is spelled, whatever undeclared content it holds - the value read can be written, reads back from what was written as an equal value, and is then written identically.',
 ['inputs'],'documents with arbitrary characters over or before any position, every spelling of short literals, every tree of bounded size',
 'tests round-trip values they construct, never the values that arbitrary documents give',
 [DS,DE,'yaserde_derive/src/ser/expand_struct.rs','yaserde_derive/src/ser/expand_enum.rs','yaserde/src/primitives.rs'],[('deserialize event loop',DS),('serialize','yaserde_derive/src/ser/expand_struct.rs')],['from_str, then to_string, then from_str'])
prop('P28','Size sets no limits',
 'The size of a document or value does not change what is read or written: texts, names, prefixes, numerals, white space, comments and undeclared content of any length, any number of pieces, list items, repeated or undeclared elements, attributes and namespaces, any nesting depth, and any number of values on one stream are read and written in full and in order.',
 ['inputs'],'lengths, counts and depths around the ends of the usual buffers and counters (127 to 65537), with symbolic characters and digits at the far end and in the middle',
 'unit tests use documents of a few lines; a fixed-size buffer, a narrow counter or a cap shows only on documents nobody writes by hand',
 [DS,DE,DM,'yaserde/src/ser/mod.rs','yaserde/src/primitives.rs','yaserde_derive/src/ser/expand_struct.rs','yaserde_derive/src/ser/implement_serializer.rs'],[('deserialize event loop, Vec::push, string accumulation',DS),('depth counter',DM),('Serializer::write','yaserde/src/ser/mod.rs')],['from_str, to_string, cursor operations, streams of values'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
