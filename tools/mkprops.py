#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state":[dict(name=n, meaning=m, where=w) for n,m,w in state]} if state else {}),
            observe_at=observe or [], hook_needed=None)))
RT="crates/zserio/src/"
GEN="crates/zserio-rs-build/src/internal/"

p("C01","Primitive values use exactly the zserio wire encoding",
 "For every built-in type (fixed-width integers, bit fields of any width from 1 to 64, every variable-length integer type, bool, floats, string, bytes, extern), every value in the type's range and every bit position of the stream, writing appends exactly the bits the zserio format defines, most significant bit first. Reading those bits back, at the same position and whatever follows them, yields the same value and consumes exactly those bits. Length headers are always the shortest possible.",
 ["inputs"],"all values of all built-in types (boundary-dense, all var-length group counts), all 8 start bit phases, any trailing bits",
 "Unit tests sample about a dozen values, nearly all byte aligned; an off-by-one in one length group or bit phase passes them.",
 [RT+"ztype/varint_encode.rs",RT+"ztype/varuint_encode.rs",RT+"ztype/varint_decode.rs",RT+"ztype/varuint_decode.rs",RT+"ztype/bits_encode.rs",RT+"ztype/bits_decode.rs",RT+"ztype/string_encode.rs",RT+"ztype/string_decode.rs",RT+"ztype/extern_type.rs",RT+"ztype/bytes_type.rs",RT+"ztype/float_encode.rs"],
 [("variable-length group encoding","write_varint_type / write_varuint_type / read_sized_int / read_sized_uint"),("length prefixed blobs","write_string, write_extern_type, write_bytes_type")],
 ["public ztype::read_* / write_* functions"])

p("C02","Values and headers outside the format's range are refused",
 "A value that a variable-length integer type cannot represent is refused with an error by both the writer and the size computation, never truncated, never a crash, and exactly the representable range is accepted, including the extreme values of each type. A length or selector read from a stream that exceeds the largest zserio size (2^31-1) is refused with an error instead of being reduced to a smaller number. An extern or bytes value whose declared size contradicts its data is refused rather than written as a stream that decodes to something else.",
 ["inputs"],"all values of the carrier integer types against each variable-length type's limits; all five-byte size headers; all declared-size/data-length combinations",
 "No test writes an out-of-range value; the limits sit at 2^14, 2^28, 2^31, 2^36, 2^55 and 2^63 where sampled tests never go.",
 [RT+"ztype/varint_bitsize.rs",RT+"ztype/varuint_bitsize.rs",RT+"ztype/varint_encode.rs",RT+"ztype/varuint_encode.rs",RT+"ztype/varuint_decode.rs",RT+"ztype/extern_type.rs",RT+"ztype/bytes_type.rs",RT+"ztype/limits.rs"],
 [("range check","signed_bitsize / unsigned_bitsize return Err when the value needs more bytes than allowed"),("MAX_VARSIZE","write_varsize")],
 ["public ztype functions' Result"])

p("C03","Decoding any byte string is total: a value or an error",
 "Decoding any byte string as any type - truncated anywhere, corrupted, or random - either returns a value or returns an error; it never crashes, and a declared length that the remaining data cannot back is refused without reserving memory for it. Decoding succeeds on exactly the byte strings that are valid encodings (including redundant var-length forms), with exactly the value they denote; running out of data, invalid UTF-8, an unknown enum value, an unknown union selector and an oversized length are all errors.",
 ["inputs"],"all prefixes of valid encodings, mutations of them and arbitrary byte strings, for every generated type and built-in reader",
 "The tests feed a handful of truncated strings and one oversized array; every other failure path is never executed.",
 [RT+"ztype/string_decode.rs",RT+"ztype/reader.rs",RT+"ztype/array.rs",RT+"ztype/array_traits/delta_context.rs",RT+"ztype/extern_type.rs",GEN+"generator/decode.rs",GEN+"generator/zunion.rs",GEN+"generator/zenum.rs",GEN+"generator/zchoice.rs"],
 [("checked reads","bitreader errors propagated with ?"),("bounded pre-allocation","ARRAY_ALLOC_CHUNK, remaining() checks")],
 ["from_bytes, zserio_read, zserio_read_packed, ztype::read_*"])

p("C04","Computed bit sizes equal the bits actually written",
 "For every object and every start bit position, the reported bit size equals exactly the number of bits that writing the object at that position appends, in both the plain and the packed form. This includes length headers, presence bits, selectors, alignment and offset padding, dynamically sized bit fields and delta descriptors. Summing sizes along a message therefore predicts every later field's position.",
 ["inputs","programs"],"all objects of all schema types, all start positions modulo the largest alignment in use, plain and packed",
 "The test suite compares sizes for a handful of byte-aligned objects; size code is generated separately from write code for every field kind, so they drift apart silently.",
 [GEN+"generator/bitsize.rs",GEN+"generator/zstruct.rs",GEN+"generator/zchoice.rs",GEN+"generator/zunion.rs",RT+"ztype/array.rs",RT+"ztype/alignment.rs",RT+"ztype/varint_bitsize.rs",RT+"ztype/varuint_bitsize.rs",RT+"ztype/array_traits/string_array_trait.rs"],
 [("parallel size code","zserio_bitsize / zserio_bitsize_packed / ArrayTrait::bitsize_of / DeltaContext::bitsize_of")],
 ["zserio_bitsize, zserio_bitsize_packed, Array::zserio_bitsize, *_bitsize"])

p("C05","Every object of every schema survives an encode/decode round trip",
 "For every schema and every well-formed object of it, decoding the encoded bytes yields an equal object, consumes exactly the encoded bits and leaves following data untouched. Encoding a decoded object reproduces the canonical bytes. The encoded bits are the ones the zserio format prescribes for that schema and object, so they interoperate with other zserio implementations.",
 ["inputs","programs"],"all schemas over the supported constructs (hand-written corpus and randomly generated ones) and all well-formed values",
 "The tests round-trip one fixed object for each of about 20 fixed schemas.",
 [GEN+"generator/encode.rs",GEN+"generator/decode.rs",GEN+"generator/zstruct.rs",GEN+"generator/zchoice.rs",GEN+"generator/zunion.rs",GEN+"generator/zenum.rs",GEN+"generator/zbitmask.rs",RT+"lib.rs"],
 [("mirrored generated code","zserio_write / zserio_read")],
 ["to_bytes/from_bytes and zserio_write/zserio_read of generated types"])

p("C06","Array layout: length header, element order, fixed lengths, alignment",
 "An array of unspecified length is written as its element count followed by its elements in order; an array of declared length is written without a count and always holds exactly that many elements. Elements of an array addressed by indexed offsets each start on a byte boundary, in writing, reading and size computation alike, and nothing else adds padding. Decoding yields the same elements whatever the pre-allocation limit is set to.",
 ["inputs","configurations"],"all element types, lengths (including 0 and multi-byte counts), start bit phases, fixed/auto length, with and without indexed offsets, any pre-allocation limit",
 "Array tests cover one u32 array; the per-element alignment and fixed-length forms are only exercised by single byte-aligned samples.",
 [RT+"ztype/array.rs",RT+"ztype/alignment.rs",RT+"ztype/array_traits/object_array_trait.rs",GEN+"generator/array.rs",GEN+"generator/index_offsets.rs"],
 [("Array::zserio_write/read/bitsize","ztype/array.rs"),("per-element alignment","align_array_element_*")],
 ["ztype::Array public methods"])

p("C07","Packed numeric arrays: lossless delta encoding, never larger than plain",
 "Packing an array of integers is lossless for every sequence of values of every integer type and width, including sequences crossing zero, the sign boundary or the full 64-bit range. The stream is one descriptor (a flag, plus a six-bit delta width when packed), the first element in full, then fixed-width signed deltas of the smallest sufficient width (none at all when all elements are equal), or plain elements when packing would not be smaller. Hence a packed array never takes more than one bit more than its plain form.",
 ["inputs","histories"],"all element sequences (boundary-dense, lengths 0 to large), all integer types and widths, all start phases",
 "Two tests pack one short monotone array; the choice between packed and plain, delta widths near 62 bits and sign changes are never reached.",
 [RT+"ztype/array_traits/delta_context.rs",RT+"ztype/array.rs",RT+"numbits.rs"],
 [("two-pass delta context","DeltaContext::init / finish_init / write / read / bitsize_of"),("bit_length","numbits.rs")],
 ["ztype::Array with is_packed, DeltaContext public methods"],
 [("is_packed","whether deltas are used","DeltaContext"),("max_bit_number","delta width","DeltaContext"),("previous_element","last element's image","DeltaContext"),("processing_started","descriptor already emitted","DeltaContext")])

p("C08","Packed arrays of compound objects are lossless, one context per field",
 "In a packed array of structs, choices or unions every packable field of the element type has its own delta state running over the whole array, nested compounds included, fields that are absent or not selected in an element do not take part, and non-numeric fields (strings, floats, bools, blobs) are stored as in the plain form. Arrays nested inside the elements are packed per instance. Every such array decodes to the array that was written.",
 ["inputs","programs","histories"],"all element schemas combining nested structs, choices, unions, enums, bitmasks, optionals, bit fields and nested arrays; all element sequences",
 "One test packs one struct type with one value sequence; context indexing mistakes between fields or instances cancel out in such a sample.",
 [GEN+"generator/packed_contexts.rs",GEN+"generator/zunion.rs",GEN+"generator/zchoice.rs",GEN+"generator/zstruct.rs",RT+"ztype/array_traits/object_array_trait.rs",RT+"ztype/array_traits/packing_context_node.rs"],
 [("packing context tree","zserio_create_packing_context / zserio_init_packing_context, children[field index]")],
 ["zserio_*_packed of generated types, arrays of them"])

p("C09","Struct layout: field order, presence bits, conditions, alignment",
 "A struct is written as its fields in declaration order; an optional field is a presence bit followed, only when present, by its value; a conditional field occupies space exactly when its condition on earlier fields and parameters holds. An aligned field's data starts at a multiple of its alignment counted from the start of the stream, a field addressed by an offset starts on a byte boundary, padding bits are zero, and no padding is inserted anywhere else. Reading recovers exactly which fields were present.",
 ["inputs","programs"],"all field sequences mixing optional, conditional, aligned and offset fields; all presence patterns; all start phases",
 "The repository tests one optional struct and one aligned struct with fixed values at bit position zero.",
 [GEN+"generator/encode.rs",GEN+"generator/decode.rs",GEN+"generator/bitsize.rs",RT+"ztype/alignment.rs"],
 [("encode_field/decode_field/bitsize_field","generator"),("align_writer/align_reader/align_bitsize","alignment.rs")],
 ["generated zserio_write/zserio_read/zserio_bitsize"])

p("C10","Choices and unions carry exactly the selected alternative",
 "A choice writes only the alternative chosen by its selector value - any of a case's labels selects it, the default applies to every other value, and an empty case writes nothing - and reading with the same selector yields that alternative. A union writes the position of its selected member followed by that member only, and reading restores both. Members that are not selected never influence the bytes.",
 ["inputs","programs"],"all selector types (integers, bool, enum, bitmask), all selector values including unlisted ones, all member kinds, plain and inside packed arrays",
 "Tests use one choice with two cases; multi-label cases, empty cases, defaults and unions beyond the first members are never run.",
 [GEN+"generator/zchoice.rs",GEN+"generator/zunion.rs",GEN+"generator/expression.rs",GEN+"ast/zchoice.rs"],
 [("match construct","generate_choice_match_construct / generate_union_match_construct")],
 ["generated types"])

p("C11","Parameters and dynamic sizes are passed exactly as declared",
 "A parameterised type nested in another is decoded with precisely the argument values its declaration names, evaluated on the enclosing object (for arrays, with @index being the position of each element), with integer arguments converted to the parameter's type. Bit widths and array lengths given by expressions take the value of that expression on the same object in writing, reading and size computation. An object whose stored parameters or array length contradict the enclosing object is not written.",
 ["inputs","programs"],"all argument expressions (fields, parameters, dotted paths, @index, function calls, constants), all nesting of parameterised types, plain and packed",
 "Tests use a few fixed parameter chains with one value each, so passing the wrong argument or index often gives the same bytes.",
 [GEN+"generator/pass_parameters.rs",GEN+"generator/decode.rs",GEN+"generator/encode.rs",GEN+"generator/casts.rs",GEN+"generator/array.rs"],
 [("initial_value / zs_item construction","decode_field"),("parameter assertion","encode_field")],
 ["generated types"])

p("C12","Enum, bitmask and constant values follow the schema",
 "Every enum item, bitmask value and constant has the numeric value the schema gives it: the explicit expression if present, otherwise one more than the previous item for enums (starting at zero) and the next higher unused single bit for bitmasks. That value is what is written, in the declared base type; reading any other number as an enum is an error, and every combination of bitmask bits is preserved. Constants referring to other constants, enum items or imported symbols evaluate to the same numbers wherever they are used.",
 ["inputs","programs"],"all enum/bitmask/const declarations over the supported base types, mixing implicit and explicit values, and all raw numbers read back",
 "The tests check single items of small enums; implicit numbering after explicit values and cross-package constants are rarely combined.",
 [GEN+"ast/zenum.rs",GEN+"ast/zbitmask.rs",GEN+"generator/zenum.rs",GEN+"generator/zbitmask.rs",GEN+"generator/zconst.rs",GEN+"ast/zconst.rs"],
 [("implicit numbering","generate_enum, ZBitmaskType evaluation")],
 ["generated enums, bitmasks, consts"])

p("C13","Schema expressions and functions evaluate by the language's rules",
 "Every expression in a schema - conditions, lengths, arguments, constants, function bodies - has the value the zserio language defines, with its operator precedence, associativity and grouping, on every object. lengthof is the element count, numbits(n) the bits needed for n distinct values, valueof the numeric value of an enum or bitmask, isset whether any of the given bits is set. Functions may call other functions and reach into nested objects, and return the same value in every context they are used in.",
 ["inputs","programs"],"all expressions over the supported operators (hand-written and randomly generated) and all operand values whose mathematical result fits the result type",
 "Tests evaluate a few fixed expressions on one value each; precedence and grouping errors need nested operators with distinguishing operands.",
 [GEN+"generator/expression.rs",GEN+"generator/function.rs",GEN+"ast/expression.rs",GEN+"ast/evaluate_mixing_native_types.rs",GEN+"visitor.rs",RT+"numbits.rs"],
 [("expression translation","generate_expression"),("compile-time evaluation","Expression::evaluate"),("numbits","numbits.rs")],
 ["generated functions, consts, conditions"])

p("C14","A type or symbol name always denotes the declaration it should",
 "A name used in a schema denotes the declaration visible at that place: fields and parameters of the enclosing type first, then declarations of the same package, then those of imported packages, nearest import first. Same-named declarations in different packages never get mixed up, a subtype behaves exactly like the type it names through any chain of packages, and the result does not depend on file names or the order in which files are read.",
 ["programs","configurations"],"all package/import graphs with equally named declarations, subtype chains across packages, and file layouts",
 "Two small reference modules cover one ambiguous name each; hash-order or search-order mistakes show only in other graphs.",
 [GEN+"compiler/symbol_scope.rs",GEN+"compiler/resolve_types.rs",GEN+"compiler/fundamental_type.rs",GEN+"model.rs",GEN+"generator/types.rs"],
 [("scope search","ModelScope::resolve_symbol, PackageScope::resolve_symbol"),("subtype unwrapping","get_fundamental_type")],
 ["wire layout and field types of generated code"])

p("C15","A template instance behaves like its hand-expanded type",
 "Every instantiation of a template - by field, by subtype, by explicit instantiation, nested in another template or in another package - behaves exactly like the type obtained by writing the arguments into the template's body. Instantiations with different arguments are independent of each other, instantiations with the same arguments are interchangeable.",
 ["programs","inputs"],"all template declarations (struct, choice, union) and argument lists over the supported constructs, and all values of the instances",
 "A few fixed instantiations are tested with one value each, mostly with builtin arguments.",
 [GEN+"compiler/template_instantiation.rs",GEN+"model.rs"],
 [("instantiate_type / instantiate_struct_fields","template_instantiation.rs"),("generate_instantiated_name","template_instantiation.rs")],
 ["generated types"])

p("C16","Code generation is deterministic and its output compiles",
 "Generating code from the same schema files gives byte-identical output every time, regardless of process, directory traversal order or hash seeds. Every schema within the supported language yields output that compiles against the runtime, with one module per declaration, every declaration reachable under its package path, and distinct declarations never overwriting one another.",
 ["programs","configurations","histories"],"all schemas of the corpus and randomly generated ones, repeated generator runs in fresh processes and in differing file layouts",
 "Tests generate one fixed tree once per build and never compare two runs.",
 [GEN+"generator/model.rs",GEN+"generator/mod_file.rs",GEN+"generator/package.rs",GEN+"generator/file_generator.rs",GEN+"model.rs",GEN+"compiler/template_instantiation.rs"],
 [("sorted module lists","mod_file.rs / package.rs"),("name mapping","types.rs")],
 ["the generated file tree"])

p("C17","All entry points agree on the same bytes",
 "Serialising to a byte vector, to an output stream and through a writer yield the same bytes: the object's bits padded with zero bits to a whole number of bytes. Deserialising from a slice, an input stream delivering data in any chunking, and a file yield the same object or fail alike; data after the object is ignored, and an I/O failure is reported as an error, never as a shortened success. Wrapping an object in an extern value stores exactly its bits and bit size.",
 ["inputs","fault_sequences"],"all objects, all chunkings and short reads/writes of the stream, I/O errors at every point, any trailing data",
 "Only to_bytes/from_bytes are exercised by tests; the stream and file forms only in doc examples.",
 [RT+"lib.rs",RT+"ztype/extern_type.rs",RT+"error.rs"],
 [("to_bytes/to_writer/from_bytes/from_reader/from_file","lib.rs"),("ExternType::from_object","extern_type.rs")],
 ["crate-level functions"])

p("C18","Encoding and decoding depend only on their inputs",
 "Encoding never changes the object, and encoding the same object again, in any order with other objects and at any position of equal alignment, yields the same bits. Decoding into an object that was used before, or after a failed decode, gives an object that encodes exactly like one decoded into a fresh object. Delta states of one packed array never influence another array.",
 ["histories"],"all sequences of encode, size, decode and failed decode operations on shared writers, readers and reused objects",
 "Tests always use fresh objects, writers and readers once.",
 [GEN+"generator/decode.rs",GEN+"generator/zunion.rs",GEN+"generator/zchoice.rs",RT+"ztype/array.rs",RT+"ztype/array_traits/delta_context.rs"],
 [("fresh packing contexts","Array::zserio_write/zserio_read create_context"),("initial_value assignment","decode_field")],
 ["zserio_read on reused objects, repeated to_bytes"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
