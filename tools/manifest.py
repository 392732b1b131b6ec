#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "protospec-build/src/"
ENC = [B + "compiler/encoder.rs", B + "coder/encode/"]
DEC = [B + "compiler/decoder.rs", B + "coder/decode/"]
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note, na=na))
PBT = "property-based testing: "
TESTS = "The tests encode one hand-written value of one hand-written document each"
MODEL = "Trusts the reference interpreter in engine/harness/src/model.rs, written from README/SPEC and independent of the compiler. Random search: bounded document and value sizes, no exhaustiveness."

p("C01", "Encoded bytes are exactly the wire format the document describes",
  "For every document the compiler accepts and every value and arguments of a type it declares, the generated encoder writes exactly the bytes the language defines for that value: fields in order, in their byte order, with lengths, conditions, calculated values, transforms and type arguments applied. Nothing is added, dropped or reordered, and nothing depends on unrelated declarations.",
  ["programs", "inputs"], "every accepted document, every type it declares, every value and argument list of that type",
  TESTS + "; the guarantee is over all compositions of the language's features, where interactions (a condition on a transformed array inside a bounded container) are what break.",
  ENC + [B + "compiler/mod.rs"], [("instruction generation per field", B + "coder/encode/field.rs"), ("instruction emission", B + "compiler/encoder.rs")],
  PBT + "random documents and values, differential against a reference interpreter of the language", MODEL)
p("C02", "Decoding what was encoded gives the value back and consumes exactly its bytes",
  "For every declared type and value, decoding the encoder's output with the same arguments yields an equal value and leaves the stream exactly at the end of that message, so that messages can be put one after another in a stream and read back one by one. Encoding the decoded value again gives the same bytes.",
  ["programs", "inputs", "histories"], "every accepted document, every sequence of messages of its types written to one stream",
  TESTS + " and decodes it from a buffer holding only that message; over-reading and state between messages are invisible there.",
  ENC + DEC, [("decode instructions mirror encode instructions", B + "coder/decode/mod.rs"), ("bounded and buffered readers", B + "compiler/decoder.rs")],
  PBT + "multi-message round trips over random documents, values and streams", MODEL)
p("C03", "Any byte string decodes to the one value it denotes, or is refused",
  "For every byte string, the generated decoder accepts exactly the strings that begin with an encoding permitted by the type, returns the value that encoding denotes, and consumes exactly that encoding. Every other string is an error, never a made-up value.",
  ["programs", "inputs"], "every accepted document and type, every byte string: valid, truncated, corrupted, or unrelated",
  "The tests decode only bytes the encoder just produced; damaged lengths, unknown enum values, early ends and non-canonical input are never tried.",
  DEC, [("decode instruction emission", B + "compiler/decoder.rs"), ("decode coder", B + "coder/decode/"), ("prelude decoders", B + "prelude/")],
  PBT + "mutation of valid encodings, differential against a model decoder", MODEL)
p("C04", "Decoders survive arbitrary input: no panic, hang or unbounded memory",
  "Whatever bytes it is given, a generated decoder returns a value or an error: it never panics, never loops without consuming input, and never allocates memory out of proportion to the input it has actually read.",
  ["programs", "inputs"], "every accepted document and type, every byte string, in particular those claiming huge lengths",
  "No test gives a decoder hostile input; a claimed length of 2^60 or a negative count needs a particular byte in a particular place.",
  DEC + [B + "prelude/"], [("length reads and allocations", B + "compiler/decoder.rs"), ("prelude decoders", B + "prelude/utf8.rs")],
  "fuzzing: structured and mutated byte strings in processes with limited memory and time", "A hang is 20 s without progress; memory is limited by address space. Allocation proportional to input is tested through a counting allocator limit, not proved.")
p("C05", "Results do not depend on how I/O is split, and I/O failures are reported",
  "A message encodes to the same bytes through a sink that accepts a few bytes at a time, and decodes to the same value from a source that delivers a few bytes at a time or is interrupted. When the source ends early or either side fails at any byte, the call returns an error; it never panics and never reports success.",
  ["programs", "inputs", "fault_sequences"], "every accepted document and value, every partition of its bytes into reads or writes, a failure or end at every byte",
  "The tests use in-memory vectors, where every read and write is whole and never fails.",
  ENC + DEC + [B + "prelude/base64.rs", B + "prelude/gzip.rs"], [("read_exact/write_all use and error propagation", B + "compiler/decoder.rs"), ("transform streams finished and flushed", B + "compiler/encoder.rs")],
  PBT + "fault injection: random read/write partitions, short counts, interruptions and failures at chosen bytes", MODEL + " flate2 itself rejects Ok(0) and Interrupted sinks; gzip documents are tested without those two.")
p("C06", "Values that have no encoding are refused, not silently altered",
  "When a value contradicts its type (an array or string of another length than declared, an absent field whose condition holds, contents that do not fill their declared length, no matching alternative), encoding returns an error. It never panics, and never writes bytes that denote another value.",
  ["programs", "inputs"], "every accepted document and every inconsistent combination of field values and arguments",
  "Two tests check one length mismatch each; the inconsistent combinations of lengths, conditions and arguments are unbounded.",
  ENC, [("length checks", B + "coder/encode/field.rs"), ("condition handling", B + "coder/encode/container.rs")],
  PBT + "generated inconsistent values, differential against a model that decides encodability", MODEL)
p("C07", "Conditional parts are present exactly when their condition holds",
  "A field, reference or transform with a condition is written and read exactly when the condition, evaluated over the fields before it and the arguments, is true. When it is false no byte is written or consumed and the field reads back as absent, at every nesting depth.",
  ["programs", "inputs"], "every condition expression, on fields, containers, type references and transforms, alone and nested, for values on both sides of it",
  "A handful of tests have one condition each, mostly on a scalar field with a constant or one flag.",
  [B + "coder/encode/container.rs", B + "coder/decode/container.rs", B + "compiler/"], [("conditional instructions", B + "coder/encode/mod.rs"), ("optional fields in structs", B + "compiler/mod.rs")],
  PBT + "condition-heavy documents, differential both ways against the model", MODEL)
p("C08", "Calculated fields always carry the value of their expression",
  "Whatever a user passes for a field with a calculated value, the encoder writes the value of its expression (including the byte length of a later field), and the decoder reads it where it stands. Lengths so written always match what follows them.",
  ["programs", "inputs"], "every calculated expression (len, blen, arithmetic, casts, conditions) over every value of the other fields",
  "The tests have a few calculated lengths with small values; truncation, nesting, order and conditions around them are not reached.",
  [B + "coder/encode/container.rs", B + "prelude/len.rs", B + "prelude/blen.rs"], [("calculated fields and auto targets", B + "coder/encode/container.rs"), ("blen buffering", B + "coder/encode/field.rs")],
  PBT + "documents rich in calculated fields, differential both ways against the model", MODEL)
p("C09", "Arrays hold exactly the elements their length form admits",
  "An array of fixed or computed length has exactly that many elements on the wire, an array with a terminator ends at its first occurrence, and an unbounded one takes everything up to the end of its stream. Every element type, transform and nesting of arrays obeys this, and an element cut short is an error.",
  ["programs", "inputs"], "every element type, length form and nesting of arrays, with 0, 1 and many elements",
  "Tests cover arrays of u8 and u32 with a few lengths; terminators inside elements, empty arrays and nested arrays of references are not reached.",
  [B + "coder/encode/array.rs", B + "coder/decode/array.rs", B + "compiler/"], [("loops and terminators", B + "coder/decode/array.rs"), ("primitive array fast path", B + "compiler/encoder.rs")],
  PBT + "array-heavy documents, differential both ways against the model", MODEL)
p("C10", "A container of declared length occupies exactly that many bytes",
  "The contents of a container with a declared length are written only if they are exactly that long, and are read from exactly that many bytes: nothing inside it reads past its end, everything after it starts right behind it, and a stream that ends inside it is an error. This holds for nested bounded containers and whatever lies in them.",
  ["programs", "inputs"], "every nesting of bounded containers, contents that underrun, fill or overrun the bound, and every truncation",
  "Two tests use a bounded container, with contents that exactly fill it.",
  [B + "coder/encode/container.rs", B + "coder/decode/container.rs", B + "compiler/decoder.rs"], [("constricted readers", B + "compiler/decoder.rs"), ("length check on encode", B + "coder/encode/container.rs")],
  PBT + "bounded-container documents with damaged lengths, differential both ways against the model", MODEL)
p("C11", "Enums are a faithful, total mapping between names and numbers",
  "Each enum item has its declared (or next) value in its declared representation and byte order; every number decodes to its item, to the default item if one is declared, or to an error. Converting to the number and back is the identity, and Default is the item the language says.",
  ["programs", "inputs"], "every enum: explicit, implicit, negative and boundary values, any representation, with and without a default; every number of that representation",
  "The tests encode one item of a few enums; unknown values, default items and gaps after explicit values are not reached.",
  [B + "compiler/mod.rs", B + "semantics/convert/type_/"], [("enum generation", B + "compiler/mod.rs"), ("item values", B + "asg/types/enum_.rs")],
  PBT + "random enums, every generated function against a model mapping", MODEL)
p("C12", "Bitfields behave as sets of their flags over their integer",
  "Each flag has its declared (or next) bits in the declared representation; getters, setters, constants, operators and equality of the generated type agree with bit operations on the number, and its wire form is that number. Decoding refuses or keeps undeclared bits as the language says, never losing a declared one.",
  ["programs", "inputs", "histories"], "every bitfield: explicit, multi-bit and implicit flags, any representation; every number and sequence of operations",
  "One or two tests set a few flags; explicit multi-bit flags, sequences of sets and clears and undeclared bits are not reached.",
  [B + "compiler/mod.rs", B + "semantics/convert/type_/"], [("bitfield generation", B + "compiler/mod.rs")],
  PBT + "random bitfields, operation sequences against a bit-set model", MODEL)
p("C13", "Tagged alternatives are chosen by their conditions, identically both ways",
  "A container marked as alternatives encodes exactly the variant given and decodes the first variant whose condition holds; what the decoder picks is what the encoder wrote whenever the conditions agree. When none holds, decoding is an error.",
  ["programs", "inputs"], "every list of alternatives, overlapping, default and nested, every tag value",
  "Three tests cover it, each with disjoint single-value conditions.",
  [B + "coder/encode/container.rs", B + "coder/decode/container.rs", B + "compiler/"], [("variant dispatch on encode and decode", B + "coder/decode/container.rs")],
  PBT + "tagged-alternative documents, differential both ways against the model", MODEL)
p("C14", "Transforms apply in order, undo each other, and see only their own part",
  "A chain of transforms on a field or reference is applied left to right when encoding and undone in reverse when decoding, each one only when its condition holds, with its arguments. The transformed part ends where it should: fields after it are intact and nothing is left unflushed.",
  ["programs", "inputs"], "every chain of transforms (base64, gzip, user-defined), conditional or not, over every kind of field",
  "Each transform has a test by itself with fixed content; chains, conditions and what follows the transformed field are barely reached.",
  [B + "coder/encode/mod.rs", B + "coder/decode/mod.rs", B + "prelude/gzip.rs", B + "prelude/base64.rs"], [("stream wrapping", B + "compiler/encoder.rs"), ("stream unwrapping", B + "compiler/decoder.rs")],
  PBT + "transform-heavy documents, differential both ways against the model", MODEL + " base64 uses a stand-in for base64 0.13 (not available offline) with the same interface.")
p("C15", "Built-in foreign types follow their encodings for every value",
  "Variable-length integers use the documented encoding and round-trip for every value of every width and sign, refusing over-long input; utf8 and utf16 strings carry exactly the text, with declared, terminated or open length, and refuse invalid text. Values that do not fit are errors, never truncations.",
  ["programs", "inputs"], "every integer of every width, every string including non-ASCII, empty and terminator-containing, every length form, and invalid encodings",
  "Each has one or two fixed examples in the tests.",
  [B + "prelude/var.rs", B + "prelude/utf8.rs", B + "prelude/utf16.rs", B + "prelude/pad.rs"], [("encode/decode snippets", B + "prelude/var.rs")],
  PBT + "boundary integers and unicode strings in random documents, differential against a model codec", MODEL)
p("C16", "Expressions in generated code evaluate as the language defines",
  "Every well-typed expression used as a condition, length, calculated value or argument yields, in the generated code, the value the language defines: operator precedence, short-circuiting, fixed-width arithmetic, shifts, comparisons, casts, member and index access, enum items, flags and constants. The encoder and the decoder agree on it.",
  ["programs", "inputs"], "every typed expression tree over fields, arguments, constants, enum items and flags, and every value of them",
  "Tests use one operator at a time with values chosen not to distinguish precedence or width.",
  [B + "compiler/expr.rs", B + "semantics/convert/expression/"], [("expression emission", B + "compiler/expr.rs"), ("implicit conversions", B + "semantics/convert/expression/")],
  PBT + "random typed expressions, generated code against a model evaluator", MODEL)
p("C17", "Constants are evaluated exactly, and never wrongly or by crashing",
  "A constant expression evaluates to the value its operators define in its declared type, whether used as a constant, an enum value, a flag or inside another expression; an expression with no value (overflow, division by zero, shift out of range) is never given one silently and never crashes the compiler. The generated code uses that same value everywhere.",
  ["programs"], "every constant expression of every integer type, with boundary operands, casts, conditionals and references to other constants",
  "Tests define a handful of literal constants; no test evaluates operators at type boundaries.",
  [B + "compiler/expr.rs", B + "asg/expression/const_int.rs"], [("constant evaluation", B + "compiler/expr.rs"), ("const_int operators", B + "asg/expression/const_int.rs")],
  PBT + "random constant expressions against a reference evaluator, in the compiler and through compiled enums, flags and fields", "Trusts the reference evaluator (engine/harness/src/model.rs). A signed >> and an unsigned >>> of a number with its top bit set are left open by the documents and only have to be accepted or refused.")
p("C18", "Type arguments and defaults reach exactly the parameter they belong to",
  "A type with parameters, used directly or through references at any depth, behaves as if each parameter were replaced by its argument, or by its default where the argument is left out. Omitting an argument and passing its default's value are indistinguishable on the wire.",
  ["programs", "inputs"], "every parameter list, defaults included, every reference chain and argument expression",
  "Tests pass one or two arguments through one reference; defaults computed from other arguments, and chains, are not reached.",
  [B + "compiler/mod.rs", B + "coder/encode/field.rs", B + "semantics/convert/type_/"], [("argument lists", B + "compiler/mod.rs"), ("default substitution", B + "compiler/encoder.rs")],
  PBT + "documents with random parameter lists and defaults, differential both ways against the model", MODEL)
p("C19", "Imports bring in exactly the named declarations, wherever they are declared",
  "Splitting a document over files and importing the parts (types, transforms or functions, with or without renaming, through several files) gives the same wire format as the document in one piece. A name not exported, a missing file, a cycle of imports or a clashing name is an error with a location, never a crash, and a name not imported stays invisible.",
  ["programs", "inputs"], "every split of a document over a graph of files, with aliases, and every broken import",
  "One or two tests import a single type from a single file.",
  [B + "import.rs", B + "prelude/resolver.rs", B + "semantics/"], [("import resolution", B + "semantics/"), ("resolver", B + "prelude/resolver.rs")],
  PBT + "metamorphic: random splits of random documents over import graphs, and generated broken imports", MODEL)
p("C20", "A document means what its grammar says, however it is spelled",
  "Every well-formed document parses to exactly the tree its grammar gives it: operators bind by their precedence and associate to the left, and nothing of the document is dropped or reordered. Redundant parentheses, whitespace, comments, trailing commas and equivalent literal forms never change what it means: the respelled document compiles to the same generated code, and so does its syntax tree when stored and read back.",
  ["programs"], "every syntactically valid document and every equivalent respelling of it",
  "The parser tests read a few fixed documents and do not look at the tree; precedence and nesting combinations are unbounded.",
  [B + "parser/", B + "ast/"], [("recursive-descent parser", B + "parser/"), ("syntax tree", B + "ast/")],
  PBT + "random syntax trees written in random spellings and parsed back; respelling relations over accepted documents", "The grammar is written a second time, as a writer of syntax trees (engine/harness/src/respell.rs). For accepted documents the relation compares generated code text.")
p("C21", "Tokens, literals and positions are read exactly as written",
  "Tokenizing a text yields its tokens in order with exactly their spelling; every integer, string and character escape denotes its value, and every token's span covers exactly its text, line and column included, as do the spans of names, literals and expressions in the syntax tree. A malformed token (an unfinished string or comment, or a character that starts no token) is an error at its place, never a crash or a different token.",
  ["inputs"], "every text: every sequence of tokens, literal form, escape, comment and line break, and arbitrary characters",
  "The token tests list fixed texts with short tokens on one or two lines.",
  [B + "tokenizer.rs", B + "ast/mod.rs"], [("tokenizer", B + "tokenizer.rs")],
  PBT + "token sequences with known spelling and position, rendered and tokenized back", "The oracle is the generated token list itself and a reference tokenizer (engine/harness/src/lex.rs). Columns are counted in bytes; the end of a line comment may be before or after its line break.")
p("C22", "The compiler is total: any text is compiled or refused with a located error",
  "Whatever text it is given, the front end (tokenizer, parser, analysis, code generation) either produces code or returns an error pointing into the text. It never panics, never overflows the stack and never runs without end.",
  ["inputs", "programs"], "every text: random characters, token soup, mutated and spliced documents, deep nesting, extreme literals",
  "The tests feed it about two hundred well-formed texts.",
  [B + "tokenizer.rs", B + "parser/", B + "semantics/", B + "compiler/", B + "coder/"], [("error returns", B + "result.rs"), ("parser", B + "parser/"), ("analysis", B + "semantics/")],
  "fuzzing: grammar-aware mutation of documents in limited processes", "A hang is 20 s; stack is the default 8 MB thread. A text that ends too early has no place to point at ('unexpected eof').")
p("C23", "Meaningless documents are refused with an error at the offending place",
  "A document that refers to an undeclared name, redeclares one, breaks a type rule, passes wrong arguments, indexes or accesses what has no members, or refers to a field not yet read is refused, and the error points at the offending text. The corresponding well-formed document is accepted.",
  ["programs"], "every well-formed document and every single ill-formed edit of it, by kind and place",
  "A few tests have one fixed bad document each.",
  [B + "semantics/", B + "semantics/error.rs"], [("scopes and type checks", B + "semantics/convert/"), ("errors", B + "semantics/error.rs")],
  PBT + "single ill-forming edits injected into accepted random documents", "The oracle is the edit itself: each kind of edit is ill-formed by construction.")
p("C24", "Every accepted document generates Rust that compiles, for every option",
  "Whenever the compiler accepts a document, the generated code compiles with the documented dependencies, in every combination of options (async, error type, debug, and derives which include PartialEq and Clone). A document that cannot be compiled is refused by the compiler, not by rustc. Names which generated code uses itself (Vec, String, Option, Result, Read, Write and the like) are outside the statement, names which are keywords of Rust are within.",
  ["programs", "configurations"], "every accepted document, every combination of compile options",
  "The tests compile about two hundred fixed documents with the default options.",
  [B + "compiler/"], [("code emission", B + "compiler/mod.rs")],
  PBT + "random accepted documents and options, compiled with rustc", "rustc is the oracle. The async-compression and async-recursion crates are replaced by stand-ins offline.")
p("C25", "Asynchronous code writes and reads exactly what synchronous code does",
  "For every document, value and byte string, the asynchronous encoder writes the same bytes as the synchronous one and the asynchronous decoder gives the same value, consumption or error, whatever the sizes of the chunks and the order in which the streams become ready.",
  ["programs", "inputs", "schedules"], "every accepted document, value and byte string; every schedule of pending and partial reads and writes",
  "A few tests run one fixed value through async code over always-ready in-memory buffers.",
  [B + "compiler/encoder.rs", B + "compiler/decoder.rs", B + "prelude/"], [("async emission", B + "compiler/mod.rs")],
  PBT + "differential sync/async under random wake-up and chunk schedules", "async-recursion is a stand-in macro; gzip and base64 are left out (their async adapters are not available offline).")
p("C26", "Compilation is deterministic and options do not change the wire format",
  "Compiling the same text gives the same code every time, in every process. Options that only add derives, change the error type, or add async or debug code leave what is encoded and decoded unchanged.",
  ["programs", "configurations"], "every document, any number of compilations, every combination of options",
  "Every test compiles once with one set of options.",
  [B + "compiler/", B + "coder/"], [("ordered emission", B + "compiler/mod.rs"), ("coder contexts", B + "coder/")],
  PBT + "repeated compilation with fresh hash seeds and metamorphic option changes", MODEL)
p("C27", "Equivalent documents have the same wire format",
  "Rewriting a document without changing its meaning (moving a nested type to a declaration of its own, reordering independent declarations, renaming, adding unused declarations, splitting or naming sub-expressions as constants) changes no encoded byte and no decoding.",
  ["programs", "inputs"], "every document, every meaning-preserving rewriting, every value",
  "No test compares two documents.",
  [B + "semantics/", B + "compiler/", B + "coder/"], [("type references", B + "semantics/convert/type_/"), ("reference emission", B + "coder/encode/field.rs")],
  PBT + "metamorphic: rewritten documents compiled together and run on the same values", MODEL)
p("C29", "Scalars keep every bit in every width, sign and byte order",
  "Every scalar (integers of 8 to 128 bits, signed and unsigned, floats, booleans, in big and little endian) is written in its declared width and byte order and read back bit for bit, as a field, an array element, an enum or bitfield representation, or an argument. Booleans decode as the language says for every byte.",
  ["programs", "inputs"], "every scalar type and byte order, every value of it including boundaries, NaN payloads and infinities, alone and in arrays",
  "Tests use small values of a few widths; asymmetric byte patterns and 128-bit little-endian elements are not reached.",
  [B + "compiler/encoder.rs", B + "compiler/decoder.rs", B + "ast/types/scalar.rs"], [("primitive writes", B + "compiler/encoder.rs"), ("primitive reads", B + "compiler/decoder.rs")],
  PBT + "scalar-heavy documents with boundary values, differential both ways against the model", MODEL)

exe = os.path.join(ROOT, "engine/target/release/harness")
have = set(subprocess.run([exe, "ids"], capture_output=True, text=True, check=True).stdout.split())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for x in P:
    if x["id"] in have and not x["na"]:
        m["checks"].append(dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough",
                                evidence_file=f"evidence/{x['id']}.json", technique=x["tech"], level="exploration", level_note=x["note"]))
    else:
        m["not_applicable"].append(dict(property=x["id"], reason=x["na"] or "its check is not built yet"))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", [x["property"] for x in m["not_applicable"]], "unclaimed;", have - {x["id"] for x in P})
