#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit).
import json
P=[]
def p(id,title,statement,qover,qtext,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":qover,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe,"hook_needed":hook}})
p("C01","Lossless round trip of parsed documents",
  "For every text that parses as a KDL 2.0 document, printing the parsed, unmodified document yields that text back, byte for byte, including its byte order mark, comments, slashdashed parts, line breaks, escapes, number spellings and whitespace.",
  ["inputs"],"every UTF-8 text the KDL 2.0 parser accepts",
  "The tests print a fixed list of sample files; which combination of trivia positions (before/after types, keys, equals signs, children, terminators) a text uses is unbounded.",
  ["src/v2_parser.rs","src/document.rs","src/node.rs","src/entry.rs","src/identifier.rs","src/fmt.rs"],
  [("every consumed character is stored in a format field or a repr","src/v2_parser.rs"),("Display/stringify prints every field in order","src/node.rs stringify, src/entry.rs Display, src/document.rs stringify")],
  ["KdlDocument::parse_v2","Display for KdlDocument"])
p("C02","Values and names survive printing",
  "Every value (string, integer, float, boolean, null) and every name, printed in KDL 2.0 form without custom formatting, is read back by the KDL 2.0 parser as the same value: same type and same content, floats bit for bit except that all NaNs are one.",
  ["inputs"],"every Unicode string, every 128-bit integer, every 64-bit float",
  "Tests print a handful of strings; the quoting decision depends on every character and on keyword- and number-like shapes.",
  ["src/value.rs","src/identifier.rs","src/v2_parser.rs"],
  [("is_plain_ident decides whether a string can be bare","src/value.rs is_plain_ident"),("write_string escapes","src/value.rs write_string"),("escaped_char decodes","src/v2_parser.rs escaped_char")],
  ["Display for KdlValue","Display for KdlIdentifier","KdlDocument::parse_v2"])
p("C03","Documents built through the API print to equivalent KDL",
  "A document assembled through the public constructors and mutators with default formatting (any names, types, arguments, properties, children, nesting) prints as valid KDL 2.0 text that parses back to the same nodes, types, entries in order, values and children.",
  ["programs","inputs"],"every finite sequence of API calls that build a document without setting custom formatting",
  "Tests build a few small documents; which fields are present at which depth is unbounded.",
  ["src/document.rs","src/node.rs","src/entry.rs","src/value.rs","src/identifier.rs"],
  [("stringify supplies separators and terminators when there is no format","src/node.rs stringify"),("Display for entries","src/entry.rs")],
  ["KdlDocument::to_string","KdlDocument::parse_v2"])
p("C04","Autoformatting keeps the data and is idempotent",
  "Autoformatting a parsed document, with any autoformat configuration, yields text that still parses as KDL 2.0 to the same nodes, types, entries, values and children, and autoformatting the result again changes nothing.",
  ["inputs","configurations"],"every accepted text; every indent string of spaces or tabs, indent level, comment-stripping and entry-normalising choice",
  "Tests autoformat a few samples with the default configuration; the interplay of comments, escaped lines, slashdash and indentation is unbounded.",
  ["src/node.rs","src/entry.rs","src/document.rs","src/fmt.rs"],
  [("autoformat only assigns formatting fields","src/node.rs autoformat_impl, src/document.rs autoformat_config, src/entry.rs autoformat_impl"),("autoformat_leading/autoformat_trailing rewrite trivia only","src/fmt.rs")],
  ["KdlDocument::autoformat_config","KdlDocument::parse_v2"])
p("C05","Parsing is total and every rejection is diagnosed",
  "Parsing any text, as a document, node, entry or identifier, terminates without panicking and returns either a value or an error that carries at least one diagnostic, each of whose spans lies inside the text on character boundaries and whose source is the text itself.",
  ["inputs"],"every UTF-8 text whose nesting depth (children blocks, block comments, slashdashed blocks) stays within what the thread's stack holds",
  "The failure tests cover a list of malformed samples; error recovery has to make progress from every state on every text.",
  ["src/v2_parser.rs","src/document.rs","src/error.rs"],
  [("every repeated parser consumes input","src/v2_parser.rs"),("resume_after_cut recovery always consumes or fails","src/v2_parser.rs resume_after_cut_inner"),("failure_from_errs fills spans","src/v2_parser.rs failure_from_errs")],
  ["KdlDocument::parse_v2","KdlError::diagnostics"])
p("C06","Spans point at the text they describe",
  "In every parsed document each name, entry, node and document carries a span that lies inside the text on character boundaries; the span of a name covers exactly its written form, the span of an entry covers exactly its written form without leading and trailing space, and spans of siblings are disjoint and ordered, children inside their node.",
  ["inputs"],"every UTF-8 text the KDL 2.0 parser accepts",
  "Tests check spans of a few literal documents; offsets depend on multi-byte characters, byte order mark, types and trivia anywhere before the element.",
  ["src/v2_parser.rs"],[("span_from_checkpoint and with_span","src/v2_parser.rs")],["span() accessors"])
p("C07","The parser accepts exactly KDL 2.0",
  "Every text that the KDL 2.0 grammar accepts parses, to the node names, types, arguments, properties, children and order the specification assigns, and every text the grammar rejects is an error.",
  ["inputs"],"every UTF-8 text on which the specification text is unambiguous",
  "The vendored test suite has a few hundred samples; grammar conformance is a statement about every text and every code point.",
  ["src/v2_parser.rs"],[("grammar functions named after productions","src/v2_parser.rs"),("code point tables","src/v2_parser.rs NEWLINES, UNICODE_SPACES, DISALLOWED_IDENT_CHARS, is_disallowed_unicode")],
  ["KdlDocument::parse_v2"])
p("C08","String escapes, multi-line and raw strings mean what the spec says",
  "In any quoted, multi-line or raw string that the specification allows, the parsed value is the specified one: escapes decoded, escaped whitespace dropped, multi-line prefixes removed, line breaks normalised to line feeds, raw text untouched; ill-formed strings (bad escapes, wrong prefixes, surrogates or out-of-range code points) are errors.",
  ["inputs"],"every string literal of every form, any content",
  "Tests sample a few literals; dedenting and escapes interact character by character.",
  ["src/v2_parser.rs"],[("quoted_string / raw_string / escaped_char / ws_escape","src/v2_parser.rs")],["KdlDocument::parse_v2"])
p("C09","Number literals have their mathematical value",
  "A decimal, hexadecimal, octal or binary integer literal, with any sign and underscores, is parsed as exactly the integer it denotes when it fits in 128 signed bits and is an error when it does not; a literal with a fraction or exponent is parsed as the nearest 64-bit float, and the keyword numbers as infinities and NaN.",
  ["inputs"],"every number literal",
  "Tests sample a few literals per radix; overflow boundaries, underscores and signs combine without bound.",
  ["src/v2_parser.rs"],[("decimal/hex/octal/binary/float/keyword and FromStrRadix/ParseFloat","src/v2_parser.rs")],["KdlDocument::parse_v2","KdlValue::as_integer","KdlValue::as_float"])
p("C10","Node argument and property operations keep their contract",
  "On any node, looking up, inserting, and removing by position or property name act on the sequence of entries as documented: positional access sees only arguments in order, a name sees the last property so named, insertion by name replaces or appends, positional insertion places the argument at that position, removal takes out the first matching entry, and nothing else in the node changes; out-of-range positional insertion or removal is the only failure.",
  ["inputs","histories"],"every node content and every key",
  "Tests call each operation on one or two small nodes.",
  ["src/node.rs"],[("entry_impl, entry_mut_impl, insert_impl, remove_impl, get, get_mut, push, clear_entries, keep","src/node.rs")],["KdlNode::get/entry/insert/remove/push"])
p("C11","Document lookups agree with the node list",
  "On any document, looking up a node or its arguments by name returns what a left-to-right scan of the node list gives: the first node with that name, its first argument, all its arguments, and the arguments of its dash-named children, and the mutable variants expose the same elements without touching others.",
  ["inputs","histories"],"every document and every name",
  "Tests use one small document.",
  ["src/document.rs"],[("get, get_mut, get_arg, get_args, get_arg_mut, iter_args, get_dash_args, iter_dash_args","src/document.rs")],["KdlDocument accessors"])
p("C12","Equality is an equivalence that ignores spans and agrees with hashing",
  "For values, identifiers, entries, nodes and documents, equality is reflexive, symmetric and transitive, does not depend on source spans, distinguishes any differing content or formatting, and equal items hash equally. Floats count as the same content after the documented normalisation: NaN is 0.0, the infinities are the largest finite values, and the two zeros are one.",
  ["inputs"],"every pair and triple of values, identifiers, entries, nodes, documents",
  "Tests compare a few literals; the law is about all pairs, including float corner cases.",
  ["src/value.rs","src/identifier.rs","src/entry.rs","src/node.rs","src/document.rs"],
  [("PartialEq/Hash implementations","src/*.rs")],["==","Hash"])
p("C13","Serde never changes a number",
  "Deserialising an integer argument or property into any integer type gives exactly the number written, or an error when the type cannot represent it, never a wrapped or truncated one; a float is read bit for bit as a 64-bit float and as the nearest 32-bit float, never as an integer. Serialising a number writes a literal that denotes exactly that number, or is an error.",
  ["inputs"],"every integer and float of every supported width",
  "Tests use small numbers of a few types.",
  ["src/de.rs","src/se.rs"],[("ValueDeserializer::deserialize_any picks the visitor by range","src/de.rs"),("serialize_* widen to i128/f64","src/se.rs")],["kdl::de::from_str","kdl::se::to_string"])
p("C14","Typed data survives serde",
  "For data made of records, nested records, maps with string keys, sequences and tuples of scalars, optional scalar fields, strings, numbers, characters and booleans, deserialising the serialised text gives an equal value back. Nested records may name fields by the positional (`#0`, `#1`, ... in order), property, all-arguments and remaining-arguments views. Optional collections, nested options, optional units, enums, and records with another field named like one of their properties are outside this family.",
  ["inputs","programs"],"every value of every type in that family",
  "Tests round-trip a few fixed values; omission of false and null fields interacts with nesting, positional and property renames.",
  ["src/de.rs","src/se.rs"],[("field omission","src/se.rs SerializeStruct/SerializeMap impls"),("omitted fields restored","src/de.rs NodeMapAccess::new, DocumentMapAccess")],["kdl::se::to_string","kdl::de::from_str"])
p("C15","Deserialisation presents exactly the document's content",
  "Deserialising a node as a map presents, in order, each of its properties and then each name of its children exactly once in first-seen order with all nodes of that name in document order, and a document presents its nodes the same way. A record additionally gets exactly the positional, remaining-argument, type and name views it asks for, and nothing is invented, lost or attributed to another name.",
  ["inputs"],"every document and node shape; every set of requested fields",
  "Tests use small literal documents.",
  ["src/de.rs"],[("DocumentMapAccess::new, NodeMapAccess::new, args/props","src/de.rs")],["kdl::de::from_str"])
p("C16","Conversion between KDL 1 and KDL 2 keeps the data",
  "Reading any KDL 1 text gives the nodes, types, entries, values and children that text holds, and the comments, space and terminators around them. Converting a document to KDL 2 or KDL 1 form, in place or through v1_to_v2 and v2_to_v1, keeps all of them in order, and the text around them (KDL 1 form leaves out the space KDL 1 does not allow inside an entry or a type annotation, and gives a document's last node a terminator if it has none). Afterwards the written form of every name, type, string, boolean and null is, read by itself under the target version, that very name or value; a number's text is unchanged, and an integer with no text of its own is written in decimal.",
  ["inputs"],"every KDL 1 and KDL 2 document and every document built from them or through the API; texts of comments and slashdashed items are carried over unread",
  "Tests convert two or three samples.",
  ["src/document.rs","src/node.rs","src/entry.rs","src/identifier.rs","src/value.rs"],
  [("From<kdlv1::...> conversions","src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs, src/value.rs"),("ensure_v1/ensure_v2","src/document.rs, src/node.rs, src/entry.rs")],
  ["KdlDocument::v1_to_v2","KdlDocument::v2_to_v1","KdlDocument::ensure_v1","KdlDocument::ensure_v2"])
p("C17","Version fallback never loses or invents a result",
  "With version fallback enabled, parsing a text succeeds exactly when it is valid in KDL 2 or in KDL 1, gives the KDL 2 reading when both accept, and otherwise reports an error that comes from parsing that same text. Each version-specific entry point uses only its own version.",
  ["inputs","configurations"],"every text; every combination of version features",
  "Tests parse a few documents with the fallback on.",
  ["src/document.rs","src/entry.rs","src/node.rs"],[("FromStr/parse","src/document.rs parse, parse_v1, parse_v2"),("check_version","src/document.rs")],["KdlDocument::parse"])
p("C18","Clearing the format keeps the data",
  "Clearing the formatting of an entry, node or document, shallowly or recursively, removes formatting only: names, types, values, entry order and children stay as they were, and no custom formatting is left where it was asked to be cleared.",
  ["inputs"],"every document, node and entry",
  "Tests clear one or two samples.",
  ["src/document.rs","src/node.rs","src/entry.rs","src/identifier.rs"],[("clear_format, clear_format_recursive","src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs")],["clear_format","clear_format_recursive"])
p("C19","Editor positions match diagnostics",
  "For the current text of a document, which is that of the last open, change or save notification that carried one, the language server reports exactly the diagnostics that parsing this text gives, in order, each with its message and severity and with the line and UTF-16 column of the byte offsets where its span starts and ends, lines counted as the protocol does (LF, CRLF, CR). A document that is not open has none.",
  ["inputs","histories"],"every text under 4 GiB and every history of open, change, save and close notifications",
  "There are no tests of the language server.",
  ["tools/kdl-lsp/src/main.rs"],[("byte_to_position","tools/kdl-lsp/src/main.rs"),("on_change, did_open, did_change, did_save, did_close, diagnostic","tools/kdl-lsp/src/main.rs")],["textDocument/diagnostic"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
