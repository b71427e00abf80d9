import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

DEC="src/scale_impls/decode.rs"; ENC="src/scale_impls/encode.rs"; TR="src/scale_impls/tracing_decoder/visitor.rs"
FS="src/string_impls/from_string.rs"; TS="src/string_impls/to_string.rs"; SH="src/string_impls/string_helpers.rs"
CPH="src/string_impls/custom_parsers/hex.rs"; CPS="src/string_impls/custom_parsers/ss58.rs"; CFH="src/string_impls/custom_formatters/hex.rs"
VT="src/value_type.rs"; AT="src/at.rs"
SER="src/serde_impls/serialize.rs"; SERR="src/serde_impls/serializer.rs"; DE="src/serde_impls/deserialize.rs"; DER="src/serde_impls/deserializer.rs"; BV="src/serde_impls/bitvec_helpers.rs"

p("S01","Decoding a primitive yields exactly the encoded number, char or bool",
"Decoding the SCALE bytes of any integer type (u8 to u256, i8 to i256), bool or char, with either the plain or the tracing decoder, yields a primitive value equal to the encoded one: unsigned types give unsigned values, signed types give signed values, 256-bit types keep their 32 bytes and their signedness (when exactly those bytes remain). The decoded value carries the type id it was decoded with as its context, exactly the bytes of that primitive are consumed, and bytes that are not a legal bool or char, or that are too short, are an error.",
["inputs"],"every bit pattern of every primitive type, for both decoders",
"The existing tests decode one or two sample numbers per type; the claim is over all 2^N patterns of each width, where sign extension or truncation mistakes show only for particular values.",
[DEC,TR],[("numeric visit_* methods of the plain decoder",DEC+": DecodeValueVisitor visit_u8..visit_i256"),("numeric visit_* methods of the tracing decoder",TR+": TraceDecodingVisitor visit_u8..visit_i256")],
["scale::decode_as_type","scale::tracing::decode_as_type"])

p("S02","Encoding a primitive is exact, or an error when it does not fit",
"Encoding an integer value (at most 128 bits) into any integer type of at most 128 bits succeeds if and only if the number is in the range of that type, and then writes exactly its little-endian SCALE bytes (or, for a compact type, its canonical compact encoding), so that decoding gives back the same number; otherwise it is an error and nothing wraps or truncates. Bools encode only to bool as one byte, chars encode to char as their 4-byte code point or to an integer type as that number, and strings encode as compact length plus UTF-8 bytes.",
["inputs"],"every u128/i128 value against every integer and compact type; every bool, char, string",
"Tests encode a few in-range samples per type; out-of-range boundaries and sign combinations are an unbounded product they do not enumerate.",
[ENC],[("dispatch from value to scale-encode",ENC+": encode_primitive, EncodeAsType for Value")],["scale::encode_as_type"])

p("S03","Decoding keeps every field and item, in order, with the right names",
"Decoding bytes for a struct, tuple, array, sequence or enum type yields a value whose items are the decoded items of those bytes, all of them, each once and in order, each with the type id of that item as context. A struct or enum variant whose fields are all named gives named values with exactly the names from the type; one with no fields, or with unnamed fields, gives unnamed values, and the enum's variant name is that of the encoded variant index.",
["inputs"],"every type shape (any number of fields, names, nesting) and every byte string that decodes for it",
"Tests decode a handful of fixed shapes; dropping, duplicating or mis-naming an item at particular counts or shapes is not covered.",
[DEC],[("item loop of sequences, tuples and arrays",DEC+": to_unnamed_composite!"),("field loop of structs and variants",DEC+": visit_composite"),("variants",DEC+": DecodeValueVisitor::visit_variant")],["scale::decode_as_type","scale::decode_as_fields"])

p("S04","The tracing decoder agrees with the plain decoder",
"For the same bytes, type and registry, the tracing decoder succeeds exactly when the plain decoder does, gives the same value with the same contexts, and leaves the same bytes unconsumed. When decoding fails it reports the same underlying cause, and the error can be displayed without panicking for values it can print.",
["inputs"],"every byte string and type, valid or truncated (sequences of at most 100M items)",
"Tests compare two or three samples; the claim relates two separate implementations on all inputs, including malformed ones.",
[TR,"src/scale_impls/tracing_decoder/error.rs","src/scale_impls/tracing_decoder/path.rs",DEC],[("tracing loops",TR+": to_unnamed_composite!, visit_composite, visit_variant"),("error context merging","src/scale_impls/tracing_decoder/error.rs: with_outer_context, map_decoded_so_far")],["scale::tracing::decode_as_type","scale::decode_as_type"])

p("S05","Decoding then re-encoding gives back the same bytes",
"For any type in a registry and any value of that type, the value decoded from its SCALE bytes encodes back, with the same type, to exactly those bytes, and decoding those bytes again gives an equal value. This covers every shape: primitives (other than 256-bit ones), compact, structs, tuples, arrays, sequences, enums, strings, bit sequences of every store and order, and newtype wrappers around any of them.",
["inputs"],"every registry type without 256-bit integers and every canonical byte string for it",
"Tests round-trip a few dozen fixed examples; composition of nested shapes with one-element and wrapper types is unbounded.",
[DEC,ENC],[("decode",DEC+": DecodeValueVisitor"),("encode",ENC+": EncodeAsType for Value, encode_composite, encode_variant, encode_bitsequence")],["scale::decode_as_type","scale::encode_as_type"])

p("S06","Encoding only appends, and a failed struct-like value writes nothing",
"Encoding a value never changes the bytes that were already in the output buffer; on success it appends the value's encoding, which is the same whatever the buffer held before. When encoding a struct-like, tuple-like or list-like value fails, the buffer is left exactly as it was, whatever attempts were made internally, and the error of the first, unmodified attempt is what is returned.",
["inputs"],"every value, type (matching or not) and initial buffer content",
"Tests only encode into an empty buffer and mostly check success; leftovers of partly failed attempts need mismatching inner items at particular positions.",
[ENC],[("attempts are made in temporary buffers",ENC+": encode_composite")],["EncodeAsType::encode_as_type_to for Value"],[("output buffer","bytes appended by the encoder",ENC+": encode_composite (out)")])

p("S07","List lengths: sequences are length-prefixed, arrays must match exactly",
"A list-like or struct-like value encoded to a sequence type, without unwrapping, writes the compact-encoded number of its values followed by each value's encoding in order. Encoded to a fixed-length array type it writes just the items, in order, and only if the number of values equals the array length; otherwise, unless a single-value wrapper can be removed to make it fit, it is a wrong-length error.",
["inputs"],"every number of values, item type and array length",
"Tests use a couple of lengths; the claim is over every length (compact prefix modes change at 64, 16384, 2^30) and named and unnamed values alike.",
[ENC],[("sequence branch",ENC+": do_encode_composite visit_sequence"),("array branch",ENC+": do_encode_composite visit_array")],["scale::encode_as_type"])

p("S08","Only bools, 0s and 1s encode to a bit sequence, bit for bit",
"A list-like value encodes to a bit sequence type exactly when each of its values is a bool or an integer (signed or unsigned) equal to 0 or 1, and the encoded bits are those values in order, in the store and order format of the type; any other value in the list is an error reported at its position, with nothing written. Bit sequence values encode to bit sequence types with the same bits in order.",
["inputs"],"every list of values and all eight store/order formats",
"Tests use a few short lists; an accepted 2 or -1, or a lost bit at a store-size boundary, is a property of values not sampled.",
[ENC],[("value to bit conversion",ENC+": encode_vals_to_bitsequence"),("bit sequence values",ENC+": encode_bitsequence")],["scale::encode_as_type"])

p("S09","Decoding untrusted bytes never panics, over-reads or over-allocates",
"Decoding any byte string against any type, with the plain decoder, either returns a value or an error: it never panics, never consumes more bytes than were given, and on success leaves a suffix of the input as the remaining bytes. The memory it reserves is bounded by the input and the type rather than by a length claimed in the bytes, for types whose items occupy at least one byte.",
["inputs","fault_sequences"],"every byte string (truncated, corrupted, adversarial length prefixes) and every type without zero-sized list items, nested as deep as the stack allows (depth itself is N02)",
"Tests decode well-formed bytes only; adversarial lengths and truncation at each offset are not sampled.",
[DEC],[("capacity cap",DEC+": MAX_PREALLOCATION, to_unnamed_composite!"),("field names are only unwrapped when all are named",DEC+": visit_composite")],["scale::decode_as_type"])

p("S10","Newtype wrappers on the type or value side do not change the encoding",
"Wrapping the target type in any number of single-field structs or single-item tuples (and, for a value with several items, length-one arrays) does not change what a value that is not itself a single-item composite and has no fields the type lacks is encoded to. Wrapping a value in single-item composites, under names the type does not use, does not change its encoding to a primitive, compact, enum, or multi-field struct or tuple type.",
["inputs"],"every value/type pair that encodes, and every stack of wrappers on either side",
"Tests wrap one or two samples; the interaction of type-side and value-side unwrapping with the single-element lists that must not be unwrapped is combinatorial.",
[ENC],[("type side",ENC+": find_single_entry_with_same_repr"),("value side",ENC+": get_only_value_from_composite, encode_composite")],["scale::encode_as_type"])

p("S11","Encoding or decoding by a list of fields matches doing it by the struct type",
"Decoding with an explicit list of fields gives the same composite, and leaves the same remaining bytes, as decoding the struct type with those fields; it does so through every entry point that accepts fields. Encoding a composite value with a list of fields writes the same bytes as encoding it to that struct type, fields are matched by name when named and by position otherwise, and encoding any other shape of value as fields is an error.",
["inputs"],"every list of named or unnamed fields and every byte string or value for it",
"Tests cover one field list for encoding and one for decoding.",
[DEC,ENC,"src/lib.rs"],[("decode",DEC+": decode_composite_as_fields, DecodeAsFields for Composite and Value"),("encode",ENC+": EncodeAsFields for Value and Composite")],["scale::decode_as_fields","DecodeAsFields","EncodeAsFields"])

p("S12","A tracing error names the place that failed and the value decoded before it",
"When decoding with the tracing decoder fails, the error gives the place of the failure as the way there from the root, outermost first: the field name for a field of a struct or variant whose fields all have names, the position for any other item, and the variant name for what is inside a variant. The value it reports as decoded so far has the same type ids as a decoded value and holds exactly the items that were decoded before the failing one in each enclosing struct, variant or list, on the way to the failing item. The message is \"Error decoding value at PLACE: CAUSE\", followed by the value decoded so far in pretty style with type ids; when the root itself has no place inside it to report, the message is \"Error decoding value: CAUSE\".",
["inputs"],"every type, every byte string that does not decode to it, any depth and any kind of nesting",
"Tests trigger three fixed errors and only check that a message mentions one place.",
["src/scale_impls/tracing_decoder/visitor.rs","src/scale_impls/tracing_decoder/error.rs","src/scale_impls/tracing_decoder/path.rs"],[("where","src/scale_impls/tracing_decoder/visitor.rs: visit_composite, visit_variant, to_unnamed_composite!"),("what","src/scale_impls/tracing_decoder/error.rs: with_outer_context, Display"),("text","src/scale_impls/tracing_decoder/path.rs: Display")],["scale::tracing::decode_as_type","scale::tracing::TraceDecodingError"])

p("T01","Printing a value and parsing it back gives the same value",
"For every value made of composites, variants, bit sequences, bools, chars, strings and integers up to 128 bits, whatever its field names, variant names and string contents, parsing the printed text gives an equal value and leaves nothing unparsed. This holds for the default, compact and indented (pretty) styles, with one exception: a non-negative signed integer is read back as the equal unsigned one.",
["inputs"],"every such value, any depth and any Unicode content, in each printing style",
"Tests round-trip about ten fixed values; names that look like keywords, idents or need quoting, and every Unicode char, are not sampled.",
[FS,TS,SH],[("printer",TS+": fmt_value, fmt_composite, fmt_variant, fmt_string, fmt_char, is_ident"),("parser",FS+": parse_value and the parse_* functions")],["stringify::to_string","stringify::to_writer_custom","stringify::from_str"])

p("T02","Parsing any text is total and reports where it stopped",
"Parsing any string, with no custom parsers, never panics, and what it returns as unparsed is a suffix of the input that starts at a character boundary. When parsing fails, the error's start location lies within the input (at most its length) and its end location, if any, is not before its start; when it succeeds, the value depends only on the consumed text and the single character after it.",
["inputs"],"every string, well-formed or not, any Unicode content",
"Tests parse about a hundred fixed strings; byte/char confusion shows only for multi-byte characters in particular positions.",
[FS],[("parser",FS+": parse_value and the parse_* functions"),("error locations",FS+": ParseError")],["stringify::from_str"])

p("T03","Escapes in strings and chars are inverse and reject unknown codes",
"For every char, writing it in a quoted string or char and reading it back gives the same char; exactly the characters newline, tab, carriage return, nul, double quote, single quote and backslash are written escaped. Reading accepts exactly those seven escape codes and is an error for any other character after a backslash and for unterminated text.",
["inputs"],"every Unicode char, every string of them, every escape code",
"Tests use a few escapes; a wrong mapping for one char or an unescaped terminator depends on a single input among 1.1 million chars and their sequences.",
[SH,FS,TS],[("escape tables",SH+": to_escape_code, from_escape_code"),("reading",FS+": parse_string, parse_char"),("writing",TS+": fmt_string, fmt_char")],["stringify::from_str","stringify::to_string"])

p("T04","Number literals parse exactly or fail with an error",
"A literal of an optional sign, a digit and then digits and underscores parses to exactly the number it denotes, underscores being ignored: unsigned unless a minus sign is given, signed if it is. A number outside the range of an unsigned (or with a minus sign, signed) 128-bit integer, and a sign with no digit after it, is an error rather than a wrong number.",
["inputs"],"every literal, including those at and beyond the 128-bit boundaries",
"Tests parse a few small numbers; boundaries and arbitrary digit/underscore placement are unbounded.",
[FS],[("number parser",FS+": parse_number")],["stringify::from_str"])

p("T05","Hex text and byte lists convert exactly in both directions",
"Printing with the hex formatter writes an unnamed, non-empty list of unsigned integers that are all below 256 as 0x and two uppercase hex digits per value, leaves every other value alone, and parsing that text with the hex parser gives back the same list. The hex parser reads both digit cases, consumes up to the first non-alphanumeric ASCII character, and reports an odd number of digits or an invalid alphanumeric as an error without consuming anything; it never splits a multi-byte character.",
["inputs"],"every list of values and every string starting with or without 0x",
"Tests use five hex strings; every digit pair and every following character (including non-ASCII) matters, the more so because the parser uses unchecked UTF-8 conversion.",
[CPH,CFH],[("parser",CPH+": parse_hex"),("formatter",CFH+": format_hex, value_to_hex, u4_to_hex")],["stringify::custom_parsers::parse_hex","stringify::custom_formatters::format_hex"])

p("T06","An SS58 address is accepted only with a valid prefix and checksum",
"The SS58 parser yields bytes only for a leading run of ASCII alphanumerics that base58-decodes to a one- or two-byte network prefix, a payload and two checksum bytes matching the Blake2b-512 hash of the rest; it then returns exactly the payload and consumes exactly that run. It declines, consuming nothing, on everything else, including true, false, plain numbers and names followed by an opening bracket or brace.",
["inputs"],"every string; in particular every single-character corruption or truncation of a valid address",
"Tests use four valid addresses and a few rejects; the acceptance condition is over all strings and prefix lengths.",
[CPS],[("parser",CPS+": parse_ss58, parse_ss58_bytes, ss58hash")],["stringify::custom_parsers::parse_ss58"])

p("T07","Custom parsers run first, in order, and positions stay right",
"At every place where a value may start, custom parsers are tried in the order they were added before the built-in syntax, each seeing all the remaining text; the first one that accepts decides the value and exactly the text it consumed is skipped, whatever characters it contains. If one reports an error, parsing stops with that error, its locations shifted so that they are relative to the whole input; if all decline, the result is the same as with no custom parsers.",
["inputs"],"every input text, position (top level, fields, items, variants) and list of custom parsers that consume a prefix",
"Tests use ASCII input and one parser at a time; offsets after multi-byte text and nested positions are not sampled.",
[FS],[("custom parser loop",FS+": parse_value"),("registration",FS+": FromStrBuilder")],["stringify::from_str_custom"])

p("T08","Printing options change only layout; custom formatters take over fully",
"Compact, default and indented output of the same value contain the same text once whitespace outside quotes is removed, and indentation follows the configured leading and step strings exactly. With custom formatters, the first one (in order added) that accepts a value, at any depth, determines the text for that value and nothing else changes; with context printing, each value's text is preceded by its own context in angle brackets.",
["inputs","configurations"],"every value, style, indentation strings, formatters and contexts",
"Tests print a few values in a few styles; order of formatters, nested positions and indentation at each depth are combinatorial.",
[TS],[("styles",TS+": Formatter space, newline, item_separator, indent_step"),("custom formatters and context",TS+": fmt_value, print_custom_format, print_context")],["stringify::to_writer_custom"])

p("V01","Indexing returns the addressed item or nothing, and never panics",
"Indexing a value, composite or variant by number gives the item at that position, named or not, and by name gives the first item with exactly that name; anything else (out of range, no such name, a name on unnamed values, a primitive or bit sequence) gives nothing. Chained indexing gives nothing as soon as one step does.",
["inputs"],"every value and every chain of locations",
"Tests index a few literal values; duplicates, boundaries and wrong shapes are not sampled.",
[AT],[("indexing",AT+": At for Composite, Variant, Value, Option")],["At::at"])

p("V02","Changing or removing context leaves the value itself untouched",
"Mapping the context of a value (or composite or variant) gives a value of the same structure with the same names, order and primitive contents, in which each context is the result of applying the function to the context at that same place, once. Removing the context is mapping every context to unit, and mapping by a composition equals mapping twice.",
["inputs"],"every value, any depth, and every mapping function",
"Tests check a single shallow example at most; loss or reordering at depth is not sampled.",
[VT],[("mapping",VT+": map_context of Value, ValueDef, Composite, Variant"),("removing",VT+": remove_context")],["Value::map_context","Value::remove_context"])

p("V03","Composite accessors and constructors agree with the stored items",
"The length, emptiness and iterators (borrowed and owned) of a composite all agree with the list of values it was built from, in order and with exact size, whether it is named or not. Constructors of composites and variants, and conversions from lists, keep every given item, name and order, and choose named exactly when names were given.",
["inputs"],"every list of values and names",
"Tests use one or two literal lists; off-by-one or order mistakes for particular lengths are not sampled.",
[VT],[("accessors",VT+": Composite len, is_empty, values, into_values"),("constructors",VT+": Composite::named, Composite::unnamed, Variant::named_fields, Variant::unnamed_fields, From<Vec<_>>")],["Composite","Variant","Value constructors"])

p("V04","Conversions from Rust primitives are exact and accessors match them",
"Converting any bool, char, string or Rust integer into a value keeps it exactly: unsigned integer types become unsigned values and signed ones signed values of the same number. The typed accessors return the stored content exactly when the value holds that kind of primitive and nothing otherwise, and bytes become the list of the same unsigned numbers.",
["inputs"],"every value of every convertible type",
"Tests convert a few literals; sign extension or truncation shows only for particular numbers and types.",
[VT],[("conversions",VT+": impl_primitive_type!, From<&str>, Value::from_bytes"),("accessors",VT+": as_bool, as_char, as_u128, as_i128, as_str")],["From impls","Value::as_*"])

p("V05","The value! macro builds the value its text denotes",
"Every use of value! in its documented syntax compiles and builds the same value as the corresponding constructor calls: {..} a named composite with each key's text or string literal as the name, (..) an unnamed composite, a name before either a variant of that name, and any other expression what it converts to. Fields are kept in the order written, none dropped or repeated, with or without a trailing comma and however they are nested.",
["programs"],"every program text in the macro's documented syntax, and every value of the expressions in it",
"Tests expand about thirty fixed literals; a rule that applies to the wrong position or kind of field shows only for particular combinations.",
["src/macros.rs"],[("macro","src/macros.rs: value!, value_internal!, literal_aware_stringify!")],["value!"])

p("D01","Serializing keeps integers exact and uses the smallest type that fits",
"Serializing a value through serde emits every integer with exactly its value, using the smallest fixed-width type of its signedness that can hold it; bools, chars and strings are emitted as such. Unnamed composites are emitted as sequences and named ones as maps with the declared length and every item and key in order, variants as a two-entry map of name and values, and bit sequences as the marked map of their bits.",
["inputs"],"every value, every integer, every shape",
"Tests serialize a few values to JSON, which cannot tell integer widths apart.",
[SER,BV],[("integers",SER+": serialize_as_first_ok_type!"),("shapes",SER+": Serialize for Composite, Variant; "+BV+": serialize_bitvec")],["Serialize for Value"])

p("D02","Deserializing a number never wraps, truncates or changes sign",
"Deserializing an integer value into any Rust integer type gives exactly that number if it is in the range of the type, whatever the signedness of the stored value, and is an error otherwise. In the other direction, deserializing a value from any serde source keeps each integer exactly, as unsigned if the source offered an unsigned type and signed if it offered a signed one.",
["inputs"],"every u128/i128 against every integer type, in both directions",
"Tests check a few in-range numbers; the claim is over all pairs of number and width.",
[DER,DE],[("out of values",DER+": deserialize_number!"),("into values",DE+": PrimitiveVisitor, ValueDefVisitor")],["serde::from_value","Deserialize for Value"])

p("D03","Turning Rust data into a value follows the documented shapes",
"Serializing Rust data into a value keeps every element: structs and maps become named composites with the fields and keys in order, tuples, sequences, arrays, bytes and newtypes become unnamed composites, units become empty composites, enum variants become variants with the variant's name, options become Some or None variants, and integers keep their exact value and signedness. Floats and maps whose keys are not strings or chars are errors, never a wrong value.",
["inputs"],"every serializable datum",
"Tests serialize a fixed set of types with one value each; the claim is over all values, including all integers and nested errors.",
[SERR],[("serializer",SERR+": Serializer for ValueSerializer"),("compound serializers",SERR+": UnnamedCompositeSerializer, NamedCompositeSerializer")],["serde::to_value","ValueSerializer"])

p("D04","Rust data survives a round trip through a value",
"For a Rust type made of integers, bools, chars, strings, options (not nested), units, tuples, sequences, arrays, structs with named fields, tuple structs, newtypes, enums and string-keyed maps, converting an instance into a value and back yields an equal instance. Struct fields are matched by name whatever their order in the value.",
["inputs"],"every instance of every such type",
"Tests round-trip one instance of each of a handful of types.",
[SERR,DER],[("to value",SERR+": ValueSerializer"),("from value",DER+": Deserializer for Value, ValueDef, Composite, Variant, Primitive")],["serde::to_value","serde::from_value"])

p("D05","Deserializing a value into a value is lossless",
"Using a value as the serde source for another value gives an equal value for every shape without 256-bit integers: names, order, variants, bit sequences and integer signedness are all kept. The same holds when only part of the data, such as one struct field, is captured as a value.",
["inputs"],"every value without 256-bit integers, any depth",
"Tests use about five literal values; empty shapes, duplicate keys and nested variants are not sampled.",
[DE,DER,BV],[("visitor",DE+": ValueDefVisitor, CompositeVisitor, VariantVisitor"),("source",DER+": deserialize_any impls"),("bit sequences",BV+": MapOrBitSeqVisitor")],["serde::from_value","Deserialize for Value"])

p("D06","A variant serializes to, and is read back from, a name and values map",
"A variant serialized through serde and deserialized as a variant is the same variant, with named or unnamed values as they were. Deserializing a variant from a map accepts the name and values entries in either order and is an error if one is missing or any other entry is present.",
["inputs"],"every variant and every map offered in its place",
"Tests deserialize one or two JSON maps.",
[SER,DE],[("serialize",SER+": Serialize for Variant"),("deserialize",DE+": VariantVisitor::visit_map")],["Serialize/Deserialize for Variant"])

p("D07","Reading lists out of values checks lengths and byte ranges",
"Deserializing a composite into bytes succeeds exactly when every item is an unsigned integer at most 255, and gives those bytes in order; into a tuple or tuple struct only if the number of items is exactly that expected; into unit only if it is empty. Named values read as a sequence or tuple give the values in order, ignoring names, and a Some variant with one unnamed value or a None variant with none reads as the corresponding option; no other variant reads as an option.",
["inputs"],"every composite and expected length",
"Tests check one success and sometimes one failure each; the boundary 256 and every length are not sampled.",
[DER],[("bytes",DER+": deserialize_byte_buf for Composite"),("tuples and units",DER+": deserialize_tuple, deserialize_unit, deserialize_seq"),("options",DER+": ValueDef::deserialize_option")],["serde::from_value"])

p("D08","A value read from any serde source keeps all that the source holds",
"Deserializing a value from any serde data source, whatever its format, gives the value of the same shape: integers keep their exact number and signedness, bools, chars and strings are kept, bytes become the list of those bytes, unit an empty unnamed composite, none and some become None and Some variants, sequences become unnamed and maps named composites of every item and entry in order (repeated keys too), enums become variants, and a newtype is what it holds. A float, a key that is not text, or an error of the source anywhere inside is an error, never a partial value. Size hints of the source are not trusted: whatever they say, nothing panics and the space reserved up front is bounded. (A map whose first key is the bit sequence marker is a bit sequence.)",
["inputs"],"every serde source of any depth, its size hints and errors",
"Tests read a few JSON documents and values; size hints, errors inside, byte strings, every integer width and repeated keys are not sampled.",
[DE,BV],[("visitors",DE+": PrimitiveVisitor, CompositeVisitor, VariantVisitor, ValueDefVisitor"),("maps",BV+": MapOrBitSeqVisitor")],["Deserialize for Value, ValueDef, Composite, Variant, Primitive"])

p("N01","Encoding takes time polynomial in the size of the value",
"Encoding a value to a type takes time bounded by a polynomial in the size of the value and the type, also when the shapes do not match and an error results.",
["inputs"],"every value and type",
"Tests time a few shallow values only.",
[ENC],[("retries",ENC+": encode_composite")],["scale::encode_as_type"])
p("N02","Deeply nested input does not exhaust the stack",
"Parsing, printing, decoding and encoding deeply nested values returns an error rather than overflowing the stack.",
["inputs"],"every nesting depth",
"Tests nest a few levels only.",
[FS,DEC,ENC,TS],[("recursion",FS+": parse_value; "+DEC+": DecodeValueVisitor; "+ENC+": encode_composite")],["stringify::from_str","scale::decode_as_type"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'\.(\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
print(len(P))
