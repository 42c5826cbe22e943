#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech)))

prop("C01", "Variable-length integers survive a write/read round trip",
 "For each of the nine variable-length integer types (varint16/32/64/varint, varuint16/32/64/varuint, varsize), every value that the writer accepts is read back as exactly the same value by the matching reader, from any bit position of the stream, and the reader consumes exactly the bits the writer produced. The writer accepts every value of the range the type documents.",
 ["inputs"], "every value of the Go argument type of each writer, at every bit offset 0..7 of the stream, whatever follows in the stream",
 "The tests list a few boundary values per type; the 2^64 values per type, at unaligned positions, cannot be enumerated.",
 ["ztype/varint_encode.go","ztype/varint_decode.go","ztype/varuint_encode.go","ztype/varuint_decode.go"],
 "writeVarInt/writeVarUint choose a byte count and spread the magnitude over 6/7/8-bit groups; the readers re-assemble until a cleared continuation bit or the maximum byte count")
prop("C02", "Variable-length integers use the zserio wire format and reject out-of-range values",
 "The bytes written for a variable-length integer are the ones the zserio encoding defines: sign bit (signed types), continuation bits, big-endian 7-bit groups, 8 bits in the last byte of the maximal form, the shortest form that fits, and 0x80 for the minimum varint. A value outside the type's documented range is refused with the out-of-bounds error and nothing is written.",
 ["inputs"], "every value of the Go argument type of each writer",
 "A self-consistent but non-standard encoding passes every round-trip test, and the tests contain a handful of reference byte strings.",
 ["ztype/varint_encode.go","ztype/varuint_encode.go","ztype/limits.go"],
 "the per-byte loops in writeVarInt/writeVarUint, the range tables in limits.go")
prop("C03", "Fixed-width integers: exact n-bit two's complement, range-checked, round trip",
 "Writing a signed or unsigned integer with n bits emits exactly n bits holding its two's complement (unsigned: binary) representation when the value fits n bits, and otherwise returns the out-of-range error and writes nothing; reading n bits returns the value that was written, with the sign restored. This holds for the general n-bit functions and for the 8/16/32/64-bit and boolean helpers.",
 ["inputs"], "every value, every width 1..64 (and every stream offset)",
 "The tests sample single values for a few widths; off-by-one widths and the sign-extension corner cases live at the extremes of each of the 64 widths.",
 ["ztype/bits_encode.go","ztype/bits_decode.go","ztype/bool_encode.go","ztype/bool_decode.go"],
 "WriteSignedBits/WriteUnsignedBits/ReadSignedBits/ReadUnsignedBits and the sized helpers built on them")
prop("C04", "Size computation predicts exactly the number of bits written",
 "Whenever encoding a value succeeds, the bit size reported for it beforehand (size functions of variable-length integers and strings, per-element sizes of every array element kind, the size of arrays, and of generated structures, choices and unions) equals the number of bits the encoder emits at that stream position.",
 ["inputs"], "every value of every element kind; every start position; arrays of every content (generated code: over the schema corpus)",
 "Sizes are hardly tested; a size that is right for small values and wrong for a rare length class passes every test.",
 ["ztype/array_traits.go","ztype/array.go","ztype/object_array.go","ztype/varint_encode.go","ztype/varuint_encode.go","ztype/string_encode.go","internal/generator/templates/bitsizeof.go.tmpl","internal/generator/templates/builtin_bitsizeof.go.tmpl"],
 "SignedBitSize/UnsignedBitSize/BitSizeOfString/BitSizeOf/ZserioBitSize mirror the encoders by hand")
prop("C05", "The bit stream delivers the written bits, counts them, and aligns with zeros",
 "At every bit position, writing n bits (or a byte, a boolean, a byte slice) appends exactly those bits in order, big-endian, to the stream; reading returns the next bits in order, so that any sequence of reads with the same widths as the writes returns the written values. The reported position counts the bits, and aligning moves writer and reader alike to the least following multiple of the boundary, the writer filling with zero bits.",
 ["inputs","histories"], "every reachable internal state (0..7 pending bits with any content, any position), every operation and operand, every alignment boundary 1..64",
 "The tests exercise two short write sequences; the state space is the cross product of pending bits, widths 0..64 and values.",
 ["zstream/writer.go","zstream/reader.go","marshal.go"],
 "BitWriter/BitReader wrap a counting bit buffer; Align computes the distance from the running bit count")
prop("C06", "Strings, byte buffers and bit buffers survive a round trip",
 "A string, a bytes value or an extern bit buffer is written as its length (varsize) followed by exactly its content, and reading at the same position returns an equal value; an extern of any bit length keeps all its bits, including a last partial byte. A value whose declared length does not match its buffer is never written as something that decodes to other content.",
 ["inputs"], "every content and length (including lengths that are not multiples of 8 bits), every stream offset, underlying readers that return short reads",
 "Content and length are unbounded and the tests use a few short strings; bytes and extern have no unit tests at all.",
 ["ztype/string_encode.go","ztype/string_decode.go","ztype/bytes_encode.go","ztype/bytes_decode.go","ztype/extern_encode.go","ztype/extern_decode.go"],
 "length header as varsize, then raw bytes, then remaining bits of the last byte (extern)")
prop("C07", "Floats keep their exact IEEE bit pattern on the wire",
 "float32 and float64 values are written as the big-endian IEEE 754 bit pattern and read back bit for bit, including NaN payloads, infinities, subnormals and negative zero; float16 reading yields the exact value of any half-precision pattern, writing it again yields the same pattern (NaNs stay NaNs with their sign), and writing a float32 rounds to nearest even.",
 ["inputs"], "all 2^32 / 2^64 / 2^16 bit patterns, at every stream offset",
 "The tests use a dozen ordinary numbers; the special patterns are the ones that break.",
 ["ztype/float_encode.go","ztype/float_decode.go"],
 "encoding/binary big-endian transfer; half precision through the float16 package")
prop("C08", "Arrays carry every element, in order, behind the right length header",
 "Encoding an unpacked array writes the element count (varsize) if and only if the array has automatic length, then every element in order with the element's own encoding (aligned when the array is aligned), and nothing else; decoding the result yields the same sequence of elements and consumes the same bits. This holds for every element kind the library provides and for arrays of objects.",
 ["inputs"], "every element kind, every sequence of elements, automatic and fixed length, aligned and not, every start position",
 "Tests cover eight element kinds with one array each; length, order and per-kind sign or width errors need other contents.",
 ["ztype/array.go","ztype/array_encode.go","ztype/array_decode.go","ztype/array_traits.go","ztype/object_array_encode.go","ztype/object_array_decode.go","ztype/object_array_traits.go"],
 "Array/ObjectArray MarshalZserio/UnmarshalZserio over the per-kind array traits")
prop("C09", "Delta-packed arrays decode to exactly the encoded sequence",
 "For every sequence of integer elements of every packable element kind, encoding it as a packed array and decoding the result yields the same sequence, whichever representation (packed or unpacked) the encoder chose, and consumes exactly the bits written. The encoder follows the zserio rule: the first element is stored in full, the others as signed differences of one common width, the packed form is used only if it is strictly smaller and the differences fit the 62-bit limit.",
 ["inputs"], "every sequence of elements: all values, all lengths",
 "Packing depends on the extreme differences within the sequence; the tests contain a few fixed sequences.",
 ["ztype/delta_context.go","ztype/packed_array_traits.go","ztype/array_encode.go","ztype/array_decode.go","ztype/packing_context_node.go","packing_context_node.go"],
 "DeltaContext.Init gathers width and sizes, finishInit decides, Write/Read keep the previous element")
prop("C10", "No encoding or decoding error is swallowed",
 "If any write to the underlying stream fails, or any element of a value cannot be represented in its wire type, encoding returns an error; if the input ends early, decoding returns an error. Success is never reported for data that was not completely written or read.",
 ["fault_sequences","inputs"], "a failure at any single operation of the underlying reader or writer, during any library encode/decode function, for any value",
 "The tests use in-memory buffers that never fail and values that always fit.",
 ["ztype/array_encode.go","ztype/object_array_encode.go","ztype/packed_array_traits.go","ztype/delta_context.go","ztype/object_array_traits.go","marshal.go"],
 "error results threaded through every encode/decode call")
prop("C11", "Decoding arbitrary bytes never panics",
 "Decoding any byte sequence, however malformed or truncated, with any of the library's decode functions or decoders generated for a schema either yields a value or returns an error; it never panics (no index, nil, slice-bound, conversion or division failure). Exhaustion of memory by a huge declared length is outside this property.",
 ["inputs"], "every byte sequence, every decode function, every start offset",
 "Malformed inputs are not tested at all; the input space is unbounded.",
 ["ztype/array_decode.go","ztype/delta_context.go","ztype/extern_decode.go","ztype/varuint_decode.go","ztype/bits_decode.go","internal/generator/templates/decode.go.tmpl"],
 "explicit error returns on every read; no recover anywhere")
prop("C12", "Library functions share no hidden mutable state between calls",
 "The result of an encode, decode or size operation depends only on its arguments: operations do not modify package-level state, and obtaining the element kind for a given bit width and Go type gives the same answer whatever was requested before, by whichever goroutine. In particular any history of requests for bit-field element kinds (any width 1..64, any integer type) succeeds.",
 ["histories","schedules"], "every history of calls, every interleaving (via absence of shared writable state)",
 "Tests run single operations in fresh processes; the dependence on history needs particular sequences of widths and types.",
 ["ztype/array_traits.go"],
 "GetBitFieldArrayTraits/GetSignedBitFieldArrayTraits and the static ArrayTraits table")
prop("C13", "Constant expressions evaluate to their zserio value",
 "When the compiler evaluates a constant expression (arithmetic, bitwise, shift, comparison, logical and conditional operators, parentheses, unary operators, numbits, literals in all notations), the result has the kind and value zserio gives it: integers in 64-bit two's complement (a literal, division by zero or shift that has no such value is an error), floats in double precision, booleans and strings exactly; an integer operand mixed with a float is converted. Enum items and bitmask values without explicit value continue the sequence (last value plus one; next power of two).",
 ["programs"], "every operator with every pair of operand values; expression trees by composition; literals by patterns of every notation",
 "Expression tests check a dozen literals; operator semantics at the boundaries of the value ranges are untested.",
 ["internal/ast/expression.go","internal/ast/enum.go","internal/ast/bitmask.go","internal/ast/const.go"],
 "Expression.Evaluate folds operand results bottom-up and records result type and value")
prop("C14", "Mixed-width arithmetic picks a Go type that can hold both operands",
 "Where an expression mixes integer types, the compiler's chosen Go type is the same whichever order the operands are written in, is as wide as the wider of the operands' Go types, is unsigned exactly when one of two integer operands is (and a float when one is a float), an integer literal takes the type of the other operand if that can hold it, and bit-field types map to the smallest standard Go integer type that holds all their values.",
 ["programs"], "every pair of built-in integer types, every bit-field width 1..64",
 "The tests compile a few expressions; the pairwise table is never enumerated.",
 ["internal/ast/mixing_native_types.go","internal/generator/expression.go","internal/generator/funcs.go","internal/generator/types.go"],
 "rank-based type selection and bit rounding")
prop("C15", "Generated encoders and decoders implement the schema's wire layout",
 "For every value of a schema type, the generated encoder writes exactly the layout the schema defines (fields in order; optional flags and conditions; alignment; array length and packing; the selected choice or union member; enum and bitmask base types; parameters; template instantiations), and the generated decoder, given those bits and the same parameters, restores an equal value and consumes exactly those bits.",
 ["programs","inputs"], "all values of all types of a corpus of schemas covering the constructs of the language (arrays inside generated objects up to 4 elements)",
 "The repository's generated code is only compiled, almost never run; the values and construct combinations are unbounded.",
 ["internal/generator/gen.go","internal/generator/expression.go","internal/generator/funcs.go","internal/generator/templates/","internal/model/transform.go","internal/visitor/visitor.go","internal/ast/"],
 "templates expanded over the resolved syntax tree")
prop("C20", "Generated constants, enumerations and defaults have the values of the schema",
 "In the generated code every constant, enum item and bitmask value has the value that the schema gives it (automatic values included); the names and values of an enum correspond, exactly the names of its items are accepted, and an enum read back from a database column is the one that was stored; LoadDefaultValues gives every field with a default that value, recursively, and changes nothing else.",
 ["programs","inputs"], "all objects, all strings and values, of a corpus schema with constants, enums, bitmasks and defaults of every kind",
 "The generated declarations are compiled by the tests, but never evaluated.",
 ["internal/generator/templates/","internal/generator/gen.go","internal/generator/expression.go","internal/ast/"],
 "templates expanded over evaluated constants")
prop("C16", "Output file names are unique and within the length limit",
 "Whatever the package and symbol names of a schema and whatever the order in which they are requested, every generated file gets a path of its own, no path exceeds the configured maximum path length (0 meaning no limit), and a name is only altered when it would collide or exceed the limit.",
 ["inputs","histories"], "every sequence of requested names, every limit",
 "The tests try four names; collisions between a shortened or numbered name and a later request need specific sequences.",
 ["internal/generator/gen.go"],
 "assembleUniqueFilePath keeps the set of used names and appends a counter")
prop("C17", "Marshal and Unmarshal hand over complete data or an error",
 "Marshalling returns the complete encoding of the object, with the last byte filled up with zero bits, exactly when the object's encoder succeeds, and otherwise no bytes and an error wrapping the encoder's; unmarshalling presents exactly the given bytes to the object's decoder from the first bit and returns its error, wrapped.",
 ["inputs","fault_sequences"], "every object encoder/decoder behaviour (any bits written, any error)",
 "Tests only use well-behaved types.",
 ["marshal.go","zstream/writer.go","zstream/reader.go"],
 "bit writer over a bytes.Buffer, explicit Close before taking the bytes")
prop("C18", "The generated source is a function of the schema alone",
 "Running the compiler again on the same schema files with the same options produces byte-identical output, whatever the order of files in the directory or of internal map iteration.",
 ["configurations","schedules"], "every run, every map iteration order",
 "A test run sees one iteration order.",
 ["internal/generator/gen.go","internal/model/model.go","internal/model/transform.go"],
 "packages and symbols are sorted before they are emitted")
prop("C19", "The parser accepts exactly the zserio grammar and rejects invalid schemas",
 "Every schema text that conforms to the zserio language is accepted and resolved to the declared types, and a text that does not conform is reported as an error and produces no output.",
 ["programs"], "all schema texts",
 "The set of schemas is unbounded; the tests parse ten files.",
 ["internal/parser/","internal/visitor/visitor.go","internal/ast/package.go"],
 "ANTLR-generated parser plus a visitor that builds the syntax tree")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
