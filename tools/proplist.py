"""The properties. props.py turns this into properties.jsonl and MANIFEST.json; a
property without a harness package under /verif/harness is listed as not applicable
(with the reason in its "na" key)."""

LEVEL_NOTE = ("Bounded: the solver's verdict covers every value of the symbolic inputs within the bounds that the evidence "
              "file lists under coverage.bounds; loops are unrolled by path exploration and no path is cut off silently. "
              "Trusts the SSA construction of golang.org/x/tools, the engine's semantics of Go (cross-checked by running one "
              "solver model of every harness on the natively compiled code) and z3.")


def P(id, title, statement, over, quant, why, files, mech, note="", na=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            "note": note, "na": na}


PROPS = [
    P("C01", "Variable-length integers: minimal encoding, exact round trip, range errors",
      "For each of the nine variable-length integer types, every value in the type's range is encoded in the smallest "
      "number of bytes the zserio format allows, in exactly the format's bit layout, and decoding those bytes gives back the "
      "value, consumes exactly these bytes and agrees with the predicted size. A value outside the range is rejected with the "
      "out-of-bounds error and nothing is written. Decoding arbitrary bytes either fails with an error or yields a value in "
      "the type's range, and a truncated encoding is always an error.",
      ["inputs"], "every value of the 16, 32 or 64 bit Go type each codec takes, and every byte string of up to 10 bytes for decoding",
      "The tests encode and decode a table of about ten constants for each type; the boundaries between byte lengths, the "
      "minus-zero encoding of the minimum and the eighth bit of the last byte are only reached by specific values among 2^64.",
      ["ztype/varint_encode.go", "ztype/varint_decode.go", "ztype/varuint_encode.go", "ztype/varuint_decode.go"],
      [("encoders and size functions", "ztype/varint_encode.go, ztype/varuint_encode.go"), ("decoders", "ztype/varint_decode.go, ztype/varuint_decode.go")]),
    P("C02", "Fixed-width integers and booleans occupy exactly their bits at any offset",
      "A fixed-width signed or unsigned integer of n bits (n from 1 to 64) or a boolean, written at any bit offset of the "
      "stream, occupies exactly n bits, most significant bit first (two's complement when signed), leaves the values before "
      "and after it unchanged, and reads back as the same value. A value that does not fit the n bits is rejected with an "
      "error and leaves the stream as if nothing had been written. A number of bits above 64, also one that another field "
      "determines, is an error in either direction.",
      ["inputs"], "every width 1..64, every value of the widest Go type, every bit offset 0..7, arbitrary neighbouring bits; widths above 64",
      "Tests write single constants at byte-aligned positions; a wrong mask or sign extension shows only for particular width, "
      "offset and sign combinations.",
      ["ztype/bits_encode.go", "ztype/bits_decode.go", "ztype/bool_encode.go", "ztype/bool_decode.go", "zstream/writer.go", "zstream/reader.go"],
      [("bit field codecs", "ztype/bits_encode.go, ztype/bits_decode.go"), ("bit stream", "zstream/writer.go, zstream/reader.go")]),
    P("C03", "Floating point values keep their IEEE 754 encoding",
      "32 and 64 bit floats are written as their IEEE 754 bit pattern and read back bit for bit. A 16 bit float is decoded to "
      "exactly the value its half-precision bit pattern denotes, and every 32 bit value is encoded to the nearest half-precision "
      "value (ties to even, overflow to infinity, signed zero and subnormals kept, NaN stays NaN), at any bit offset.",
      ["inputs"], "all 2^32 and 2^64 bit patterns for the inputs, all 2^16 half-precision patterns, every bit offset 0..7",
      "Tests use half a dozen constants; rounding, subnormal and overflow boundaries need specific bit patterns.",
      ["ztype/float_encode.go", "ztype/float_decode.go"],
      [("float codecs", "ztype/float_encode.go, ztype/float_decode.go")]),
    P("C04", "Strings, bytes and extern values: size prefix, content, size check",
      "A string or bytes value is written as its number of bytes in the varsize encoding followed by the bytes themselves, an "
      "extern value as its number of bits followed by exactly that many bits, at any bit offset, and each reads back equal and "
      "leaves what follows intact. The predicted size is the number of bits written. A bytes or extern value whose declared "
      "number of bits does not fit its buffer is rejected with an error.",
      ["inputs"], "all contents; lengths 0..4 bytes and the lengths around 128 where the size prefix grows; all bit offsets; all declared bit counts",
      "Tests use a few literal strings at offset 0; partial last bytes, unaligned positions and multi-byte size prefixes are not reached.",
      ["ztype/string_encode.go", "ztype/string_decode.go", "ztype/bytes_encode.go", "ztype/bytes_decode.go", "ztype/extern_encode.go", "ztype/extern_decode.go"],
      [("codecs", "ztype/string_*.go, ztype/bytes_*.go, ztype/extern_*.go")]),
    P("C05", "Stream positions are exact and alignment is symmetric",
      "After any sequence of writes the writer's bit position equals the number of bits written, and after any sequence of reads "
      "the reader's position (as aligning it shows) equals the number of bits consumed. Aligning to a boundary b (1..255 bits) from position p advances "
      "writer and reader to the smallest multiple of b not below p, pads with zero bits, returns the new position, and "
      "does nothing when already aligned; the size helper used for prediction computes the same position.",
      ["inputs", "histories"], "every position, every boundary 1..255, and mixed sequences of bit, byte, bool, bulk and align operations",
      "Tests try a handful of positions and boundaries; alignments of more than 64 bits and mixed histories are not sampled.",
      ["zstream/writer.go", "zstream/reader.go", "ztype/bit_alignment.go"],
      [("writer and reader positions", "zstream/writer.go, zstream/reader.go"), ("size helper", "ztype/bit_alignment.go")]),
    P("C06", "Unpacked arrays of every element type round-trip in the zserio layout",
      "An unpacked array of any element type is encoded as its element count in the varsize encoding (only when the length is "
      "not given by the schema) followed by each element in order in its own encoding, and decoding returns the same elements and "
      "stops exactly at the end, wherever in the stream it starts; with offset methods each element starts where they align it. "
      "An element that its type cannot represent is an error, not a truncated value.",
      ["inputs", "configurations"], "all element types, array lengths 0..3 (and lengths where the count prefix grows), all element values, fixed and automatic length, all bit offsets",
      "Tests hold one or two literal arrays for some of the types at offset 0.",
      ["ztype/array.go", "ztype/array_encode.go", "ztype/array_decode.go", "ztype/array_traits.go", "ztype/object_array_encode.go", "ztype/object_array_decode.go"],
      [("generic array", "ztype/array.go, ztype/array_encode.go, ztype/array_decode.go"), ("element traits", "ztype/array_traits.go")]),
    P("C07", "Packed arrays: exact round trip, delta layout, never much larger than unpacked",
      "A packed array of any element type decodes to exactly the elements that were encoded, including values whose differences "
      "are negative or need 63 bits, and stops exactly at the end. Its layout is the zserio delta encoding: a packed flag, the "
      "delta width when packed, the first element in its own encoding, then each difference to the predecessor as a signed field. "
      "Elements whose differences need at most 62 bits and that are not negative are packed exactly when that is smaller, other "
      "elements only when that is smaller, so a packed array never needs more than one bit more than the unpacked one. Element types "
      "that cannot be delta encoded (floating point, strings, bytes, extern) keep the unpacked layout. Boolean arrays are packed like "
      "one-bit numbers; differences between elements of both signs are taken modulo 2^64.",
      ["inputs", "histories"], "all packable element types, arrays of 0..3 elements (4 and 5 in places), all element values",
      "Tests have literal arrays with small differences; the choice between packed and unpacked and the delta width depend on all "
      "pairs of neighbouring values.",
      ["ztype/delta_context.go", "ztype/packed_array_traits.go", "ztype/array_encode.go", "ztype/array_decode.go"],
      [("delta context", "ztype/delta_context.go"), ("packed traits", "ztype/packed_array_traits.go")]),
    P("C08", "The predicted bit size is the number of bits written",
      "For every value that encodes without an error, the bit size the library or the generated code predicts for a start position "
      "equals the number of bits the encoding then adds when it starts at that position, for basic types, arrays (packed, "
      "unpacked, fixed, automatic), and generated structs, choices, unions, enums and bitmasks including alignment and optional fields.",
      ["inputs", "programs"], "all values of the types in a schema corpus that covers each construct, all start offsets 0..7, arrays of 0..2 elements",
      "No test compares prediction and output; each construct has its own prediction code that can drift from the encoder.",
      ["ztype/array.go", "ztype/object_array.go", "ztype/array_traits.go", "internal/generator/templates/bitsizeof.go.tmpl", "internal/generator/templates/builtin_bitsizeof.go.tmpl"],
      [("runtime prediction", "ztype/array.go, ztype/object_array.go"), ("generated prediction", "internal/generator/templates/bitsizeof.go.tmpl")]),
    P("C09", "A failing output sink is always reported",
      "When the underlying sink fails at any byte while a value is being encoded, whether or not it works again afterwards, the encoding (including the final flush) reports "
      "an error: no encode sequence returns success when some of its bytes were not accepted. The bytes the sink accepted up to then are a "
      "prefix of the complete encoding.",
      ["fault_sequences", "inputs"], "every position at which the sink can start to fail, all values of each kind of type: basic, array, packed array, generated struct, choice, union, enum, bitmask",
      "Only one test uses a failing sink, at one position.",
      ["zstream/writer.go", "ztype/array_encode.go", "internal/generator/templates/encode.go.tmpl", "marshal.go"],
      [("error propagation", "ztype/array_encode.go, internal/generator/templates/encode.go.tmpl")]),
    P("C10", "Truncated input is an error, never a shorter or default value",
      "When the encoding of any value is cut at any byte boundary before its last byte, decoding it as the same type reports an error "
      "instead of returning a value, for basic types, arrays (packed, unpacked, fixed, automatic) and generated types.",
      ["fault_sequences", "inputs"], "every value of the types in the corpus and every cut position",
      "Tests decode complete inputs only, apart from a few empty buffers.",
      ["ztype/array_decode.go", "ztype/delta_context.go", "internal/generator/templates/decode.go.tmpl", "zstream/reader.go"],
      [("error propagation", "ztype/*_decode.go, internal/generator/templates/decode.go.tmpl")]),
    P("C11", "Decoding arbitrary bytes never panics and allocates in proportion to the input",
      "Decoding any byte string as any supported type returns a value or an error: it never panics, never runs forever, and never "
      "allocates memory far beyond the size of the input because of a length field whose content the input does not hold. (Array "
      "elements that occupy no bits are held by any input.) Lengths and bit widths that fields determine may have any value, also "
      "negative ones and those above 64 bits.",
      ["inputs", "programs"], "all byte strings up to the bound for each of the runtime decoders and the generated decoders of the corpus",
      "Tests decode valid encodings only.",
      ["ztype/bytes_decode.go", "ztype/array_decode.go", "ztype/object_array_decode.go", "ztype/delta_context.go", "marshal.go"],
      [("decoders", "ztype/*_decode.go, internal/generator/templates/decode.go.tmpl")]),
    P("C12", "Generated structs encode their fields in schema order and round-trip",
      "The code generated for a struct encodes its fields in declaration order in the zserio layout, with a presence bit for an "
      "optional field, nothing for a field whose condition is false, zero padding up to an alignment, and array lengths from the "
      "schema's length expression; an array with another length is an error. Decoding the encoding yields a value equal to the original in every field that is present.",
      ["inputs", "programs"], "all field values of a schema corpus covering every field type and modifier",
      "The repository's tests of generated code run through Bazel and Python reference data and are a handful of literal values.",
      ["internal/generator/templates/struct.go.tmpl", "internal/generator/templates/encode.go.tmpl", "internal/generator/templates/decode.go.tmpl"],
      [("field encoder and decoder", "internal/generator/templates/encode.go.tmpl, internal/generator/templates/decode.go.tmpl")]),
    P("C13", "A choice encodes exactly the field its selector picks",
      "The code generated for a choice encodes, decodes and sizes exactly the field of the case whose conditions contain the "
      "selector value (any of several conditions, integer, boolean, enum and bitmask conditions), the default field when no case "
      "matches and there is one, and no bits for a case without a field. Packed and unpacked encodings pick the same field.",
      ["inputs", "programs"], "all selector values and field values for the choices of the corpus",
      "No test covers a choice with several conditions, a default, or a packed array of choices.",
      ["internal/generator/templates/choice.go.tmpl", "internal/ast/choice.go"],
      [("choice template", "internal/generator/templates/choice.go.tmpl")]),
    P("C14", "A union stores its tag and exactly the selected field",
      "The code generated for a union writes the zero-based index of the selected field as a varsize tag, followed by that field only; decoding restores "
      "the same selection and value, and distinct selections never share an encoding. A union without a selection and a tag that "
      "names no field are errors.",
      ["inputs", "programs"], "all selections and field values for the unions of the corpus, and all tag values when decoding",
      "No test covers tags of undeclared fields or unions in packed arrays.",
      ["internal/generator/templates/union.go.tmpl", "internal/ast/union.go"],
      [("union template", "internal/generator/templates/union.go.tmpl")]),
    P("C15", "Enums and bitmasks keep their declared width, values and names",
      "The code generated for an enum or bitmask encodes a value in its declared base type (fixed width, bit field or "
      "variable-length, signed or unsigned), unpacked and packed, and decodes it to the same value. Every declared enum item has the "
      "value the schema gives it, its name (as the schema spells it) converts to and from that item, also when it is stored in a database column, and an undeclared name is an error.",
      ["inputs", "programs"], "all values of the base type for the enums and bitmasks of the corpus; all names up to a length",
      "One test file checks a single enum.",
      ["internal/generator/templates/enum.go.tmpl", "internal/generator/templates/bitmask.go.tmpl"],
      [("templates", "internal/generator/templates/enum.go.tmpl, internal/generator/templates/bitmask.go.tmpl")]),
    P("C16", "Schema expressions mean the same in the generated code",
      "For every zserio operator and operator combination, the expression in the generated code (function results, conditions, array "
      "lengths, selectors and parameters) computes the value the schema expression has under zserio's operator precedence, "
      "associativity and arithmetic, for all values of the fields it uses (within the integer range of its result type).",
      ["inputs", "programs"], "all operand values for a corpus of expressions that pairs the operators of the language",
      "Tests translate five or six single expressions with constants.",
      ["internal/generator/expression.go", "internal/ast/expression.go"],
      [("translation", "internal/generator/expression.go")]),
    P("C17", "Constant expressions are folded to their exact value",
      "Evaluating a constant schema expression at generation time gives the value of the same expression under zserio arithmetic, for "
      "every operator (arithmetic, bitwise, shift, comparison, logical, ternary, the number-of-bits operator) and every operand, and "
      "all ways to write an integer literal up to 2^63-1 (decimal, hexadecimal, octal, binary) denote their number; string literals denote the text with their escape sequences replaced. References to constants, enum items and bitmask values denote their value in the package that declares them, in whatever order they are evaluated. An expression without a value, such as a division "
      "by zero or a negative shift, is an error, not a crash.",
      ["inputs"], "all 64 bit operands whose result is representable, for every operator; all literals up to a length",
      "The expression tests use one or two constants for each operator.",
      ["internal/ast/expression.go"], [("constant evaluation", "internal/ast/expression.go")]),
    P("C18", "Implicit enum and bitmask values follow the schema rules",
      "An enum item without an explicit value has the value of its predecessor plus one (zero for the first), a bitmask item without "
      "one has the smallest power of two greater than its predecessor (one for the first), and an item with one has exactly that "
      "value, in every mix of explicit and implicit items.",
      ["inputs", "programs"], "all explicit values and all mixes of explicit and implicit items in enums and bitmasks of up to four items",
      "One test covers a three item enum with constants.",
      ["internal/ast/enum.go", "internal/ast/bitmask.go"], [("value assignment", "internal/ast/enum.go, internal/ast/bitmask.go")]),
    P("C19", "Generated files never overwrite one another",
      "For every set of generated names and every limit on the path length, each generated declaration gets its own file path: two "
      "different declarations of a run never share one (also on case-insensitive file systems), every path stays inside the output directory of its package and "
      "within the length limit, and has a name that the Go tools do not skip.",
      ["inputs", "configurations"], "all names up to a length, up to three names in a run, all length limits within the bound",
      "Tests check two or three literal names.",
      ["internal/generator/gen.go"], [("path assembly", "internal/generator/gen.go")]),
    P("C20", "Encoding is pure, deterministic and safe to run concurrently",
      "Encoding, sizing, and decoding into distinct values do not modify the encoded value (other than the parameters that its parameterized members receive), the input bytes, or any state "
      "shared between calls, so encoding the same value again gives the same bytes, and concurrent encodings or decodings of distinct "
      "values, and encodings of a shared value without parameterized members, do not interfere.",
      ["schedules", "inputs", "histories"], "all values of the corpus types; every write the code performs is checked against the frozen shared state, which covers all interleavings",
      "Tests are sequential and encode each value once.",
      ["ztype/array_traits.go", "ztype/array.go", "internal/generator/templates/struct.go.tmpl"],
      [("shared traits", "ztype/array_traits.go")]),
    P("C21", "The decoded value depends only on the bytes",
      "Decoding the same bytes gives the same result whether the receiving value is fresh or was used before: every field that the "
      "bytes contain, every presence of an optional field, every selection and every array has exactly the decoded content, and "
      "nothing of an earlier value changes how the bytes are read. (A field that the bytes do not contain is not part of the result.)",
      ["histories", "inputs"], "all earlier contents of the receiver and all encodings for the types of the corpus",
      "Tests always decode into fresh values.",
      ["internal/generator/templates/decode.go.tmpl", "internal/generator/templates/choice.go.tmpl", "internal/generator/templates/union.go.tmpl", "ztype/array_decode.go"],
      [("decoders", "internal/generator/templates/decode.go.tmpl")]),
    P("C22", "Parameters reach parameterized types unchanged",
      "A parameterized type used as a field, array element, choice or union member receives, before it is encoded, decoded or sized, exactly "
      "the arguments the schema names at that place (fields, constants, expressions, parameters of the enclosing type), and "
      "so encodes and decodes under the same parameters, in packed and unpacked arrays too.",
      ["inputs", "programs"], "all argument values and field values for the parameterized types of the corpus",
      "No test covers parameters of array elements or nested parameters.",
      ["internal/generator/templates/encode_compound_parameters.go.tmpl", "internal/generator/templates/decode_compound_parameters.go.tmpl"],
      [("parameter passing", "internal/generator/templates/encode_compound_parameters.go.tmpl")]),
    P("C23", "Whole-message encoding: padded, complete, all or nothing",
      "Encoding a message to bytes yields its bits padded with zero bits to a whole byte and nothing else, or no bytes and the error "
      "when any part of the encoding fails. Decoding a message accepts exactly its own encoding, reports every error of its parts, and ignores bytes "
      "after the message.",
      ["inputs", "fault_sequences"], "messages that write 0..20 arbitrary bits or fail at any step",
      "Tests round-trip complete messages only.",
      ["marshal.go"], [("Marshal and Unmarshal", "marshal.go")]),
    P("C24", "Packed arrays of structs: every field column is packed and restored",
      "A packed array of structs, choices, unions, enums or bitmasks decodes to exactly the elements that were encoded. Each integer "
      "field (nested ones included) is delta encoded against the same field of the previous element in its own column, with one "
      "descriptor per column before or with the first element, and fields that cannot be packed keep their plain encoding.",
      ["inputs", "programs"], "all element values for packed arrays of 0..3 elements of the compound types of the corpus",
      "One reference test holds a literal array.",
      ["internal/generator/templates/packing_context_create.go.tmpl", "internal/generator/templates/packing_context_init.go.tmpl", "internal/generator/templates/packing_context_encode.go.tmpl", "internal/generator/templates/packing_context_decode.go.tmpl", "packing_context_node.go"],
      [("packing contexts", "internal/generator/templates/packing_context_*.go.tmpl")]),
    P("C25", "Default values of the schema are what a fresh value gets",
      "Loading the defaults of a generated struct sets every non-optional field that has a default in the schema to exactly that value, descends into nested "
      "structs, and leaves every other field as it was.",
      ["inputs", "programs"], "all earlier field values; the defaults of the corpus, one for each field type",
      "No test covers defaults.",
      ["internal/generator/templates/default_values.go.tmpl", "internal/generator/templates/struct.go.tmpl"],
      [("defaults", "internal/generator/templates/default_values.go.tmpl")]),
    P("C26", "Types named through subtypes, imports, constants and templates resolve exactly",
      "A type reached through chains of subtypes, imports of other packages or an instantiated template has the same encoding and Go type as the "
      "type it stands for, symbols resolve to the declaration the schema's scoping rules select (the members of a compound before constants and types of the same name), and constants have their declared value "
      "and type wherever they are used.",
      ["programs", "inputs"], "all values of the types of a corpus that reaches each built-in type through each kind of reference",
      "Tests cover single-level references.",
      ["internal/ast/type_reference.go", "internal/ast/scope.go", "internal/ast/package.go", "internal/generator/types.go"],
      [("resolution", "internal/ast/scope.go, internal/ast/type_reference.go")]),
    P("C27", "Generated files import exactly what their code uses",
      "A generated file imports exactly the packages that its code refers to: an import that the code uses is kept, one that "
      "only comments, string literals or longer identifiers mention is removed, and the rest of the file is left as it is. So the code "
      "generated for a valid schema compiles whatever its comments, strings and names are.",
      ["inputs"], "all sets of used imports; all texts around a mention or a use up to a length",
      "Tests compile a few schemas whose comments mention no package.",
      ["internal/generator/strip_imports.go", "internal/generator/gen.go"], [("imports", "internal/generator/strip_imports.go")]),
]

NOT_APPLICABLE = []
