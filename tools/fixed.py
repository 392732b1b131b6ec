#!/usr/bin/env python3
"""Writes the "fixed" list of known-findings.json from the table below."""
import json, os
F = """C21 0b4daae the tokenizer read one digit of a two-digit hex string escape
C17 744d32f a reference to a constant emitted its name or type, not its value
C16 31d9657 `>>>` was emitted as `>>>`, which is not Rust
C24 876c891 an array index in an expression was emitted in its own type, which does not compile
C16 d7cf713 an emitted cast bound to part of its operand
C16 7f13ceb an emitted conditional expression bound to its neighbours
C24 1bed184 streams were moved into transforms and references
C24 9be56a4 arrays of bool generated code that does not compile
C01 ac6a75f named elements and fields of computed types were encoded as another type
C15 7a68d89 a variable-length integer of more than one byte was read wrongly
C14 9a44849 several transforms were applied in the wrong order when encoding
C15 0a9f3ce utf16 was decoded in another byte order than it is encoded in
C04 1300213 an encoded string length made the decoder allocate that much at once
C04 bbc7d4d an encoded array or pad length made the decoder allocate that much at once
C06 c10c530 a string of another length than declared was encoded
C06 e6fb97a a primitive array of another length than declared panicked
C18 2890974 references which pass arguments that have defaults were rejected
C18 a4bce57 foreign calls which pass optional arguments were rejected
C18 403cc1d arguments with defaults were passed as plain values, which does not compile
C07 64c8f07 optional fields of optional containers were decoded as options of options
C16 1fb6b20 the side of a ?: was coerced instead of its result
C06 3d54feb an array of another length than declared was encoded
C13 0c41b7f bool variants of tagged enums generated code that does not compile
C14 53b014d references behind transforms were decoded from unbuffered streams
C14 a46f2cf optional streams were wrapped in transforms of unsized readers
C09 9077820 the terminator of an array was found in buffered readers only
C14 8639331 the transforms of container variants of tagged enums were left out
C05 66060c3 an error of the sink at the end of a transform was lost
C05 7eba0e1 base64 lost bytes to sinks that write partially
C09 d071890 a stream ending inside an element of an unbounded array was taken for its end
C09 d9f6329 a stream ending before the terminator of an array or string was accepted
C10 aad5012 a container of another length than declared was encoded
C10 657f08b unread bytes of a bounded container were left in the stream
C11 24cf197 Default of an enum whose first entry is its default one did not compile
C06 b83555a an alternative was encoded as nothing when no condition holds
C13 1bbb741 container variants of tagged enums were not held to their declared length when encoding
C22 baa2179 the operand of a unary expression was analysed twice, in exponential time
C22 dd72b8b the left side of an expression was analysed again in vain, in exponential time
C17 9679a16 constant expressions without a value wrapped, panicked or reached rustc
C22 50da757 chains of comparisons were analysed in exponential time
C22 d17cd5a types which refer to nothing but themselves overflowed the stack
C22 9d740a9 blen where its target cannot be measured panicked
C22 0c65b17 tagged enums without variants panicked
C22 c9ff17d len of containers and sum of anything but number arrays panicked
C22 11f3909 inline containers used as values panicked
C22 647d991 containers declared in the arguments of types panicked
C08 5a20f01 calculated lengths waiting for the same field were encoded in the wrong order
C08 e86ed68 calculated fields were calculated before those they are calculated from
C22 b3a69e7 calculated fields needed before they can be calculated panicked
C22 05506fa arrays of nothing but themselves overflowed the stack
C22 91366a7 comparing recursive types overflowed the stack
C21 2056ff5 columns of the first line were off by 64
C21 5f20f0d line breaks in strings and comments were counted wrongly or not at all
C21 7d901b3 a comment that is not closed swallowed the rest of the document
C21 f4b1864 where a malformed token is was not reported
C21 8022e27 the span of an enum access left out the variant
C21 c2f1e98 the span of a type was its first token only
C21 2ee31fb the sum of two spans did not cover both
C23 0d35571 the error of a bad left operand pointed at the right one
C23 a5805a7 negated and complemented bools, and arithmetic of bools and texts, were accepted
C23 723caa5 type arguments of one name, and required ones after optional ones, were accepted
C23 5461790 a bitfield without a representation was refused without saying where
C19 4c5f683 files which import themselves overflowed the stack
C19 a9cc93b types that imported ones depend on were not generated, aliased imports did not compile, and imports silently replaced names in use
C25 f8377a8 conditional transforms of asynchronous encoders did not compile
C25 c8cc721 asynchronous decoders read arrays to the end of the stream by synchronous methods, which does not compile
C25 9d9f015 recursive types behind transforms needed infinitely many types of writers, which does not compile
C25 03f7c7b recursion through fields of some names was not found, and the asynchronous code did not compile
C25 7294d2a generated tuple indices had suffixes, which macros refuse
C26 d189111 debug code printed registers in another order on every compilation
C15 23d4561 variable-length integers wider than their type were decoded, or panicked
C04 42d132f expressions without a value (overflow, division by zero, indices out of range) panicked
C06 4662482 zero-terminated strings containing a zero were encoded as other values
C04 e6daf4d arrays of elements which take no input were decoded without end
C06 505071a array elements which look like the end of their array were encoded as other values
C14 cc539a7 gzip decoders took input which follows the compressed part, or left part of it
C25 75a26a8 asynchronously written gzip members were not ended
C02 4f2b42d conditional calculated fields were calculated where they are absent, and what refers to them did not compile
C02 127025c calculated fields of conditional containers which refer to others in it did not compile
C24 16f1ecc enum variants with the value of another one were accepted, and did not compile
C24 3340b67 bitfield flags whose generated names are in use were accepted, and did not compile
C24 8392435 variants of tagged enums were accepted as operands of other ones, which does not compile
C24 a043ec1 defaults of arguments which refer to the argument itself were accepted, and did not compile
C24 e3c2580 conditions of types which are generated as a whole were accepted, and did not compile
C24 99185e8 types of infinite size, and operands of types which have no such operator, were accepted, and did not compile
C24 f9623b7 arguments and elements which cannot be copied, and flags used by name, did not compile
C24 09bfc00 constants of enum and bitfield types did not compile
C24 bd6a0db sides of ternary expressions were inferred as of different types, which does not compile
C22 5bdd6d7 operands of nested expressions were checked in exponential time
C24 82392ff names which are keywords of rust did not compile, or panicked
C24 93d89b4 a float where a wider one is expected did not compile
C24 80df57b bitwise operators on floats were accepted, and did not compile
C24 9093959 comparisons of strings of different lengths, and casts to the same type, did not compile
C15 c2c90c9 the length of a utf16 string was calculated in bytes of utf8, and that of a varint did not compile""".splitlines()
EXTRA = []
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
j = json.load(open(p)) if os.path.exists(p) else {"findings": []}
j["fixed"] = [f"fixed: property={l.split()[0]} {l.split()[1]} {' '.join(l.split()[2:])}" for l in F + EXTRA if l.strip()]
json.dump(j, open(p, "w"), indent=1)
