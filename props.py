"""What decides each property: contract units, bounded driver, notes."""
PROPS = {}
# per unit: resource limits
UNITS = {"parse": {"vac_rlimit": 1, "timeout": 240}, "autoformat": {"flags": ["--verify-only-module", "vx_af"]}, "fallback": {"flags": ["--verify-only-module", "vx_fb"]},
         "there": {"flags": ["--verify-only-module", "vx_out", "--verify-only-module", "vx_back"]},
         "convert": {"flags": ["--verify-only-module", "vx_cv", "--verify-only-module", "vx_fb"]}}


def P(pid, units, level, technique, note, bounded, secs=20, crate="harness", trusted=(), assumptions=(), **kw):
    PROPS[pid] = dict(units={u: UNITS.get(u, {}) for u in units}, level=level, technique=technique,
                      note=note, bounded=bounded, secs=secs, crate=crate, trusted=list(trusted), assumptions=list(assumptions), **kw)


CON = "contracts on the real functions, discharged by Verus (Z3)"
BASE = ("Trusted: Verus and Z3; vx, which copies the functions from /repo's source on every run and rewrites only the forms DESIGN.md lists; "
        "stand-ins with stated contracts for what lies outside the crate (winnow's input and combinators, std string and number functions), all named in the evidence file. ")
STACK = ("Machine-stack use is outside the proof: the quantifier excludes texts nested deeper than the stack holds.",)

P("C01", ["lex", "tok", "str", "num", "parse", "print"], "proof", CON,
  BASE + "Every parser function's contract says which part of the text each formatting field holds; every Display function's contract says what it writes; "
  "parse's postcondition is that the printed text is the text. A bounded driver on generated text runs beside it.",
  "generated text judged by an independent oracle", assumptions=STACK)
P("C02", ["lex", "tok", "str", "num", "parse", "print", "built"], "proof", CON,
  BASE + "Display of values and names is specified as pr_value/pr_ident, and lemmas over the parser's grammar functions show that text is read back as the same value (lemma_value_alone, lemma_name_alone). "
  "Assumed of std: the shape of {:?} of f64 (digits, point, exponent) and that str::parse::<f64> of it gives the same bits.",
  "generated values judged by an independent oracle", assumptions=STACK + ("std: f64's {:?} and str::parse::<f64> round trip, integer {} gives the decimal digits",))
P("C03", ["lex", "tok", "str", "num", "parse", "print", "built", "make", "node_ops", "clear_format"], "proof", CON,
  BASE + "Constructors and mutators keep the invariant bare_doc (no custom formatting; unit make), and lemma_built shows that what such a document prints is a KDL 2.0 document of the same content. "
  "Mutating parsed pieces (which carry formatting) is outside this property.",
  "generated built documents judged by an independent oracle", assumptions=STACK)
P("C04", ["autoformat", "built"], "other", "contracts on the real functions, discharged by Verus (Z3); comments and kept entries: bounded exploration",
  BASE + "Proved for every document and configuration: autoformat changes formatting only, to exactly the stated text (node_laid, doc_laid), so data is kept in memory; with comments left out and entries normalised the result's text is read back as the same content "
  "(lemma_doc_neat with lemma_neat, for entry types written the usual way) and formatting again gives the same text (lemma_doc_twice). "
  "Bounded only: re-reading and idempotence when comments or entry formatting are kept (generated texts and configurations).",
  "generated text and configurations judged by an independent oracle",
  assumptions=("std: what str::trim, str::lines, contains and starts_with give (stated in contracts/autoformat.vx)", "in lemma_doc_neat: parsed entries are not marked to be kept and a node's line-feed terminator is one line feed (checked by the bounded part)"))
P("C05", ["lex", "tok", "str", "num", "parse"], "proof", CON,
  BASE + "Every parser function has a termination measure and no reachable panic (index, slice, arithmetic, unwrap, unreachable!), and the entry points' postcondition says Ok, or an error with at least one diagnostic whose spans lie in the text on character boundaries and whose source is the text.",
  "generated text judged by an independent oracle", assumptions=STACK)
P("C06", ["parse"], "proof", CON,
  BASE + "doc_full, part of parse's postcondition, gives every span of every name, entry, node and document as positions of the grammar function's match, inside the text and nested in order.",
  "generated text judged by an independent oracle", assumptions=STACK)
P("C07", ["lex", "tok", "str", "num", "parse"], "proof", CON,
  BASE + "The grammar is written once as total spec functions (sp_*, read beside the KDL 2.0 specification); each parser function's contract is that it accepts, rejects and consumes exactly as its spec function says and yields the content it assigns. "
  "That the spec functions are KDL 2.0 is by review, and by the bounded driver against an independently written reference parser.",
  "generated text judged by an independent oracle", assumptions=STACK + ("the spec functions transcribe the KDL 2.0 specification",))
P("C08", ["str", "tok"], "proof", CON,
  BASE + "string_at, escapes, multi-line and raw bodies: each function's contract gives accepted range and value (sv_string) for every literal.",
  "generated string literals judged by an independent oracle")
P("C09", ["num", "tok"], "proof", CON,
  BASE + "Integer literals: the value is the mathematical one or an error when it does not fit i128 (digits_value, exact). Floats: the text handed to str::parse::<f64> is the literal without underscores; that std rounds to nearest is assumed.",
  "generated number literals judged by an independent oracle", assumptions=("std: str::parse::<f64> rounds to nearest; i128::from_str_radix is exact",))
P("C10", ["node_ops"], "proof", CON,
  BASE + "Each lookup, insertion and removal is specified on the sequence of entries (args_of, last_named, first_named) with everything else framed.",
  "generated node edit histories judged by an independent oracle")
P("C11", ["doc_ops"], "proof", CON,
  BASE + "Each lookup is specified by a left-to-right scan of the node list; the _mut variants by the element they expose and by what they leave unchanged.",
  "generated documents and names judged by an independent oracle")
P("C12", ["eq"], "proof", CON + "; Kani for floats",
  BASE + "The PartialEq and Hash impls are extracted and shown to be equality of a span-free view and to hash exactly that view; equivalence follows from that. "
  "Float normalisation, which Verus has no theory of, is checked by Kani over all bit patterns (complete, loop-free).",
  "generated pairs and triples judged by an independent oracle", kani=["value_laws::eq_is_equality_of_content", "value_laws::equal_values_hash_equally"])
P("C13", ["de", "se", "num", "print"], "proof", CON + "; Kani for numbers",
  BASE + "de: which visitor method gets which number; se: which literal is written for which number; num and print: what literals mean. Kani shows over all values that what the number deserializer shows is exactly the number written. "
  "serde's own impls for primitive types (range checks of visit_i64 and the like) are trusted.",
  "generated numbers and types judged by an independent oracle", kani=["serde_numbers::" + h for h in ("shown_i64", "shown_u64", "shown_i128", "shown_f64", "widening_is_exact")],
  assumptions=("serde's primitive impls check ranges as documented", "forward_to_deserialize_any! methods call deserialize_any"))
P("C14", ["se", "ser", "meet", "de", "there"], "proof", CON,
  BASE + "se and ser: what a node, an argument or a document holds for everything serde hands over (scalars, options, lists, maps, records), and, by loops that call the methods the way a derived Serialize does, for whole values of any depth; de: what each deserializer shows for it; "
  "meet (lemma_meet, lemma_meet_doc): a document with the data that was written shows whoever asks for it, part by part, exactly the value handed over, for the stated family (good, good_doc); there: to_string and from_str, and vx_there_and_back, which calls the one on what the other gives: of any value of the family it returns that value. "
  "It rests on contracts proved in C03's units (print, parse, and lemma_built: what such a document prints is read back with the same data), so that a change to those which keeps the data does not alarm here. "
  "That serde's derive and its impls for Vec, Option and maps hand over and rebuild a value from these parts is assumed, and tried by a bounded driver over types made at run time.",
  "types and values made at run time, written and read back",
  assumptions=("serde's derive and its impls for std types hand over and ask for data as documented",))
P("C15", ["de"], "proof", CON,
  BASE + "The MapAccess/SeqAccess implementations are run against an abstract visitor: the sequence of keys and the content behind each is the stated function of the node (pairs_of, groups_of) and of the fields asked for.",
  "generated documents and record shapes judged by an independent oracle",
  assumptions=("serde's derive asks for keys and values in turn, as its documentation says", "std HashMap/HashSet act as maps and sets", "forward_to_deserialize_any! methods call deserialize_any"))
P("C16", ["lex", "tok", "str", "num", "parse", "print", "built", "fallback", "convert"], "proof", CON,
  BASE + "The conversions from the kdl 4 crate's types and ensure_v1/ensure_v2 on documents, nodes, entries and identifiers carry contracts: data framed, formatting framed, and every name, type, string, boolean and null's text read in the target version as what it is (in KDL 2 by the parser's own grammar functions; in KDL 1 by what the kdl 4 crate makes of it). "
  "v1_to_v2 and v2_to_v1 return the print of such a document. Whether a whole text with its comments is valid in the target version is outside the proof; a bounded driver tries it for KDL 1 texts without slashdash.",
  "generated and built documents judged by an independent KDL 2 reader and the kdl 4 crate", crate="harness_fb",
  assumptions=("the kdl 4 crate is deterministic and total on the texts it is given", "the kdl 4 crate reads the text its KdlValue::String writes back as that string, as a name and as an argument, and the text its KdlIdentifier writes for a name KDL 2 would write bare back as that name", "str::split_at at the length of a prefix splits there") + STACK)
P("C17", ["parse", "fallback"], "proof", CON,
  BASE + "The feature-gated entry points are extracted with v1-fallback on; their contract is the stated decision table over the two parsers. The kdl 4 crate, which reads KDL 1, is a dependency: assumed to be a total function of the text whose error carries that text. "
  "One known finding: that crate panics on some texts (known-findings.txt).",
  "generated KDL 1 and KDL 2 texts judged by each version's own parser", crate="harness_fb", assumptions=("the kdl 4 crate is deterministic, total and reports the text it was given",) + STACK)
P("C18", ["clear_format"], "proof", CON,
  BASE + "clear_format and clear_format_recursive: data framed, formatting fields empty to the stated depth; recursion by structural measure.",
  "generated documents judged by an independent oracle")
P("C19", ["lsp"], "proof", CON,
  BASE + "The position computation, the document map's updates on open, change, save and close, and the diagnostics answer carry contracts: byte offset to line and UTF-16 column by definition over the text's characters, current text by the last notification, one reported item per parser diagnostic in order. "
  "Trusted here: ropey's byte, character and UTF-16 conversions, dashmap as a map, lsp-types as plain data; `&self` with interior mutability is written `&mut self`, async functions as plain ones (no handler waits between reading and writing the map). "
  "That the parser's spans lie in the text is C05. What the server announces at initialize, and the wire, are tried by the bounded driver on the real binary.",
  "generated histories of notifications sent to the real server, its answers judged by the parser's diagnostics and an independent count of lines and UTF-16 units", crate="harness_lsp",
  assumptions=("ropey's conversions are as documented", "documents are smaller than 4 GiB (an LSP position has 32 bits)", "the diagnostics' spans lie in the text (C05)"))

NOT_APPLICABLE = {
}
