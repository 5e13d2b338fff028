#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
D="src/decode.rs"; P="src/context/parse.rs"; B="src/context/builder.rs"; G="src/proto.pest"; M="src/context/modify_api.rs"; A="src/context/api.rs"; C="src/context/mod.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Decoding never crashes, whatever the bytes and the schema",
 "Decoding any byte sequence as any message type of any context (parsed from proto files or built through the API) returns a message value, and re-encoding that value returns bytes. Neither operation panics, aborts, overflows the stack or fails to terminate, however malformed, truncated, oversized or deeply nested the payload is.",
 ["inputs","configurations"],"all byte strings, all message types of all contexts, including recursive message types and payloads nested thousands of levels deep",
 "The tests decode about six hand-written, mostly well-formed payloads; the property is over every byte string, and the crashes hide in overlong varints, 32-bit overflow, zigzag extremes and deep nesting.",
 [D],[("MessageInfo::decode field loop",D),("Value::decode / decode_packed / decode_unknown",D),("from_unsigned_varint",D),("MessageValue::encode",D)],
 ["Context::decode","MessageInfo::decode","MessageValue::encode"])
p("C02","Decoding cost is bounded by the payload, not by lengths claimed in it",
 "The memory that decoding a payload allocates is at most a fixed multiple of the payload's size plus a constant. Length prefixes that claim more than is present, long runs of tiny fields, deep nesting and truncation do not make it allocate out of proportion.",
 ["inputs"],"all payloads, in particular hostile length prefixes, many small fields, and malformed values near the start of a long payload",
 "No test looks at resource use; a hostile length prefix or a quadratic copy passes every functional assertion.",
 [D],[("bounds checks on length prefixes before slicing",D),("remaining data is consumed after an incomplete value",D)],
 ["allocations made during MessageInfo::decode"])
p("C03","Well-formed payloads decode to the typed values they carry",
 "A payload produced by a conforming protobuf encoder for a message type decodes to one entry per encoded field, in payload order, with the right field number and the exact typed value for every scalar type, enum, nested message, oneof member, optional field, repeated field and packed array, and with no leftover garbage. Repeated numeric fields are accepted in packed and in unpacked form regardless of how the field is declared.",
 ["inputs","configurations"],"all schemas over the 15 scalar types, enums and messages in every multiplicity, and all values of those types including extremes, NaN, empty and large strings",
 "The tests cover one payload with small values per a handful of types; extremes of the value ranges, field numbers above 15, multi-byte lengths and most type/multiplicity combinations are never decoded.",
 [D,C,B],[("Value::decode",D),("Value::decode_packed",D),("ValueType::wire_type",C),("resolve_multiplicity",B)],
 ["MessageInfo::decode result fields"])
p("C04","Encoding produces the canonical protobuf wire format",
 "Encoding a message value writes each field in order as its tag followed by the value in protobuf wire format: minimal varints, zigzag for sint types, ten-byte sign extension for negative int32/int64/enum, little-endian fixed-width values, length-prefixed strings, bytes, messages and packed arrays. The bytes are exactly those a conforming encoder writes for the same values, so any other protobuf implementation can read them. Raw unknown, incomplete and invalid values and garbage are written back as they are. Encoding never panics, whatever the values.",
 ["inputs"],"all message values over all typed values, packed arrays, unknown, incomplete and invalid values and nested messages (nested up to the decoder's limit of 100 levels), including extremes of every integer type and sizes around varint-length boundaries",
 "The encoder tests check a few small values, mostly against the decoder of the same crate, so a symmetric error or an overflow at the range ends is invisible to them.",
 [D],[("Value::encode",D),("PackedArray::encode",D),("UnknownValue::encode",D),("into_unsigned_varint / into_signed_varint",D)],
 ["MessageValue::encode output bytes"])
p("C05","Values survive an encode and decode round trip",
 "Encoding any message value whose typed values agree with its message type and decoding the bytes as that type returns an equal value: same fields in the same order, same numbers, same types, bit-identical floats, equal nested messages and packed arrays.",
 ["inputs","configurations"],"all schemas and all schema-conforming message values, at any nesting depth up to the decoder's documented limit",
 "One test round-trips one message with small values; the quantifier is over every schema and value.",
 [D],[("Value::encode / Value::decode pairs",D),("PackedArray::encode / decode_packed pairs",D)],
 ["MessageValue equality after encode and decode"])
p("C06","Decode then encode is lossless, even for damaged or unknown data",
 "Decoding a payload and encoding the result reproduces the payload byte for byte whenever its varints are in canonical form and its declared strings are valid UTF-8, including unknown fields, fields with the wrong or an invalid wire type, truncated values and trailing garbage, at every nesting level. For any other payload the re-encoded bytes decode to the same value again.",
 ["inputs","configurations"],"all byte strings and all schemas",
 "The doc example re-encodes a single payload with one unknown and one truncated field; loss or duplication of bytes depends on which value is damaged, where, and what follows it.",
 [D],[("Value::Incomplete keeps the remaining bytes",D),("UnknownValue variants keep raw values",D),("garbage kept on the message value",D)],
 ["MessageValue::encode(MessageInfo::decode(bytes)) compared with bytes"])
p("C07","Unknown fields are kept raw and do not disturb their neighbours",
 "A field whose number the message type does not declare, or whose wire type cannot carry the declared type, decodes at its place in the field order as a raw unknown value: a varint, 32-bit, 64-bit or length-delimited value according to its wire type, with exactly the payload's contents. Adding or removing such fields leaves every other decoded field unchanged.",
 ["inputs","configurations"],"all schemas, all unknown field numbers up to the largest encodable, all wire types, all mismatching type declarations, and all positions in the payload",
 "Only one unknown length-delimited field is decoded, in the doc example; none of the other wire types, number ranges or declared-type mismatches is reached.",
 [D,C],[("wire type comparison in MessageInfo::decode",D),("Value::decode_unknown",D)],
 ["Value::Unknown entries and their neighbours"])
p("C08","A truncated payload keeps every complete field and the exact remainder",
 "Decoding a prefix of a well-formed payload returns every field that lies completely before the cut exactly as in the full payload, followed by at most one incomplete value that carries the field's number, its wire type and exactly the bytes left after its tag. If the cut falls inside a tag, the leftover bytes are reported as garbage instead and no field is added.",
 ["inputs","fault_sequences"],"all well-formed payloads and every cut position",
 "The doc example cuts one payload at one position inside a string; the behaviour differs per wire type, for declared and unknown fields, and inside packed arrays.",
 [D],[("Value::Incomplete construction in decode / decode_packed / decode_unknown",D),("garbage on undecodable tag",D)],
 ["fields and garbage of the decoded prefix"])
p("C09","Damage inside a length-delimited value stays inside it",
 "Whatever bytes a nested message, packed array, string, bytes or unknown length-delimited value contains, the fields before it and after it in the enclosing message decode exactly as if its contents were intact. Within the decoder's nesting limit (100 levels), the contents of a nested message decode exactly as the same bytes decode on their own, and an undecodable packed array becomes one incomplete value holding just its own bytes.",
 ["inputs","fault_sequences"],"all enclosing messages, all positions and nesting levels within the limit, and arbitrary contents of the damaged value",
 "No test decodes a message with a damaged nested value followed by further fields.",
 [D],[("length-delimited slices are split off before decoding their contents",D)],
 ["fields around the damaged value","the damaged value itself"])
p("C10","Varints follow protobuf's width rules, alone and in packed arrays",
 "A varint field decodes to the low-order bits that its declared type can hold, as protobuf specifies: any encoding of up to ten bytes is accepted, including zero-padded ones and values wider than the type, bool is true for every non-zero value, and sint types undo zigzag over the full range. An element of a packed array decodes to the same value as the same bytes in an unpacked field.",
 ["inputs"],"all varint encodings of one to ten bytes for int32, int64, uint32, uint64, sint32, sint64, bool and enum fields, singly and as elements of packed arrays of any length",
 "Tests decode varints of at most three bytes, and never values wider than the declared type, padded encodings or extremes.",
 [D],[("from_unsigned_varint / from_signed_varint",D),("zigzag decoding in Value::decode and decode_packed",D)],
 ["decoded values of varint fields"])
p("C11","The context exposes exactly what the proto files declare",
 "After parsing, every declared message, enum and service is found under its full name with its declared name, parent, nested types, fields (name, number, type, multiplicity, options, oneof), oneofs, enum values, rpcs (argument types, streaming flags, options) and service options; lookups by number, value and name agree with the declarations, and names that are not declared are not found. Repeated numeric fields are packed by default and follow an explicit packed option.",
 ["inputs","configurations"],"all sets of proto3 files",
 "The tests parse about ten small files and compare a few attributes; combinations of nesting, oneofs, options, multiplicities, packages and services are not sampled.",
 [P,B,A,C],[("Builder::parse functions",P),("ContextBuilder::build",B),("resolve_multiplicity",B)],
 ["Context::get_message/get_type/get_service","MessageInfo, EnumInfo, Service accessors"])
p("C12","Formatting of a proto file does not change its meaning",
 "White space, line endings, line and block comments with any contents, a byte order mark, the quote style, the radix of integer literals, empty statements, import statements, reserved declarations and file-level options do not change the resulting context. Two files that differ only in these produce equal contexts.",
 ["inputs"],"all proto3 files and all ways of laying out their tokens",
 "The tests use one layout style and two or three comments; whether the grammar is insensitive to layout depends on every pair of adjacent tokens.",
 [G,P],[("implicit WHITESPACE and COMMENT rules",G),("names are rebuilt from identifiers",P)],
 ["equality of contexts parsed from differently laid out text"])
p("C13","Every valid proto3 file is accepted and names are read whole",
 "A file that follows the published proto3 grammar, whose references resolve, parses successfully. Identifiers may equal or begin with keywords and built-in type names wherever the language allows it (such as a message called int32List, an enum value called optionA or an rpc argument type called streamRequest) and are always read as whole identifiers.",
 ["inputs"],"all proto3 files of the published grammar (with quoted reserved names and proto3 optional), with identifiers drawn around the keywords of the language; map fields (documented as unsupported), integers outside the 64-bit range and messages nested more than 100 levels deep are outside",
 "The tests use a few constructs with ordinary identifiers; a PEG without token boundaries fails only for particular identifier and construct combinations.",
 [G,P],[("keyword and type rules",G),("ordered choices of statements and constants",G)],
 ["Context::parse result and the names in it"])
p("C14","Type references resolve by protobuf scoping rules",
 "A type name in a field or rpc resolves to the declaration found by searching the innermost enclosing scope first and then outwards through enclosing messages and package components, across all given files; a leading dot makes it absolute. Inner declarations shadow outer ones of the same name (a service hides types from rpcs, but not from fields), and recursive, forward and cross-file references resolve. A name that no enclosing scope declares is an error, never a reference to something else.",
 ["inputs","configurations"],"all sets of files with nested types, dotted packages, equal names in different scopes and all spellings of a reference",
 "No test has two candidates for a reference, a multi-component package, or a partially qualified or absolute reference.",
 [B],[("BuildCache::resolve_type and resolve_field_type",B),("type paths built during populate",B)],
 ["field_type and rpc argument refs resolved to full names"])
p("C15","Parsing never crashes: any text gives a context or an error",
 "Parsing any sequence of texts returns either a context or a parse error. It never panics, aborts, overflows the stack or fails to terminate, for arbitrary text, for almost-valid proto files and for valid files with extreme literals, unsupported features or deep nesting.",
 ["inputs"],"all sequences of Unicode strings, in particular mutated proto files and extreme literals",
 "Two tests feed invalid text (foo, bar); panics sit behind the grammar in literal conversion, unsupported constructs and reference resolution.",
 [P,B,G],[("Result plumbing in PackageBuilder::parse_str",P),("literal conversion",P),("FieldTypeBuilder::build",B)],
 ["Context::parse"])
p("C16","Broken schemas are rejected with the right error",
 "Two declarations with the same full name (messages, enums or services, in any files) are rejected as a duplicate naming that type, a reference to a type that does not exist as an unknown type naming the reference and the declaration that uses it, a reference to the wrong kind of item (an enum or service as rpc argument, a service as field type) as an invalid kind, and text with a structural fault that puts it outside the grammar (a missing or extra token, a wrong keyword, an unterminated literal, keywords run together with names) as a syntax error. Files without such a fault are never rejected for one.",
 ["inputs","fault_sequences"],"all sets of files with one such fault placed anywhere",
 "No test asserts on any error; the only invalid inputs are parsed and the results discarded.",
 [B,P,C],[("duplicate check in populate",B),("TypeNotFound / InvalidTypeKind in build",B),("SyntaxError context in parse_str",P)],
 ["ParseError variant, its fields and its text"])
p("C17","Option constants keep their exact value",
 "Options of fields, oneofs, enum values, services and rpcs appear in declaration order with the declared name (custom names in parentheses, with suffixes) and a value of the kind that was written: identifier, signed 64-bit integer in any radix, floating point number in any notation including inf and nan, string with every escape decoded to its bytes, or boolean.",
 ["inputs"],"all option names and all constants of the grammar in all places where an option is allowed",
 "One unit test parses five constants of three kinds and no escapes; no test reads an option from a context.",
 [P,G,B],[("Constant::parse",P),("parse_string_literal",P),("parse_int_literal",P),("options carried through build",B)],
 ["ProtoOption values on MessageField, Oneof, EnumField, Service, Rpc"])
p("C18","Every reference in a context leads to the item it denotes",
 "In every context all references are valid and consistent: each type resolves from its own reference and its full name to itself, parent and inner-type links mirror each other, full names are the parent's full name plus the own name, field and rpc type references resolve to types of the right kind (in parsed contexts, the very declaration that the reference written in the file denotes), and a field names a oneof exactly when that oneof lists the field.",
 ["configurations","histories"],"all contexts obtained by parsing or by any sequence of insertions",
 "Tests follow a handful of references in contexts of one or two types.",
 [B,M,A],[("final index assignment in populate and build",B),("insert_type",M),("add_field / add_oneof",M)],
 ["resolve_message / resolve_enum / resolve_package","MessageInfo::parent, inner_types, oneofs, get_oneof"])
p("C19","A context built by hand equals the parsed one and behaves like it",
 "Inserting the same packages, messages, oneofs, fields and enums through the API in declaration order yields a context equal to the one parsed from the corresponding proto files. Payloads decode and values encode identically with both.",
 ["configurations","inputs"],"all sets of files without services, with one package per file, and all payloads",
 "Two tests compare one hand-built context of a single message each.",
 [M,B,D],[("insert_package / insert_message / insert_enum",M),("MessageInfo::add_field / add_oneof",M),("ContextBuilder::build",B)],
 ["Context equality","decode results on both contexts"])
p("C20","Insertions succeed or fail cleanly and never disturb what is there",
 "Inserting a package, type, field, oneof or enum value succeeds exactly when its name, number or value is free and what it refers to exists; otherwise it returns the specific error (with the reference of the existing item where the error carries one) and leaves the context or message exactly as it was. References handed out earlier keep denoting the same items after any later insertion.",
 ["histories"],"all sequences of valid and conflicting insertions of packages, messages, enums, fields, oneofs and enum values",
 "The tests only perform a fixed sequence of successful insertions; no conflict and no failure is exercised.",
 [M],[("validation before mutation in insert_type / add_field / add_oneof",M)],
 ["results of the insertion functions","context equality before and after a failed insertion"])
p("C21","The order and grouping of files and declarations do not matter",
 "Parsing the same declarations in a different file order, split over a different number of files of the same package, or in a different order within a file or message gives the same types, fields, references and services by name, and payloads decode to the same values.",
 ["configurations","inputs"],"all sets of files, all permutations and all splits",
 "Tests parse at most two files, in one order.",
 [B],[("two-pass build: populate names first, then resolve",B),("fields ordered by number",B)],
 ["name-based view of the context","decode results"])
p("C22","Parsing and decoding are pure and safe to share",
 "Parsing the same texts yields equal contexts every time, and decoding or encoding gives the same result every time for the same context and input, no matter what was parsed, decoded or encoded before or at the same time on other threads. Decoding and encoding never change the context, and a context can be shared between threads.",
 ["histories","schedules"],"all interleavings of repeated parse, decode and encode operations on shared contexts",
 "Tests run every operation once per context on one thread.",
 [D,A,P],[("&self methods without interior mutability",D),("no global state",P)],
 ["equality of repeated and concurrent results"])
p("C23","Concatenated payloads decode to the concatenated fields",
 "Decoding the concatenation of complete payloads returns the fields of the first followed by the fields of the second, in payload order and without merging, reordering or dropping repeated occurrences, even of singular fields and oneof members. Likewise encoding concatenated field lists concatenates the encodings.",
 ["inputs","configurations"],"all pairs of payloads made of complete fields, for all schemas",
 "No test decodes a payload with repeated occurrences of a singular field or compares a payload with its parts.",
 [D],[("fields pushed in payload order",D),("encode iterates fields in order",D)],
 ["fields of the decoded concatenation"])
p("C24","Readers with an older or newer schema lose nothing",
 "When a payload is decoded with another version of its schema (fields, types or enum values added or removed, fields renamed, relabelled, moved in or out of oneofs, or given another type of the same wire format and width) and encoded again, the bytes are the same and so are the values that a reader with the original schema decodes, at every nesting level. Fields that both versions declare alike decode to the same values with both, fields that only one declares are raw unknown values for the other. Inserting further types into a context changes nothing about how the types it already has decode.",
 ["configurations","inputs","histories"],"all pairs of schema versions that differ in such ways, and all payloads with canonical varints and valid UTF-8 of either version",
 "No test decodes one payload with two schemas; whether an old reader passes on what it does not know depends on the combination of change, wire type, nesting and position.",
 [D,M],[("unknown fields and unknown enum values kept with their raw value",D),("insertions only append",M)],
 ["bytes encoded with the other version","values decoded from them with the original version"])
p("C25","Equality tells apart everything that differs",
 "Two contexts compare equal if they come from the same declarations, and unequal if the declarations differ in anything but formatting and what parsing ignores: a name, number, type, label, option, oneof, enum value, rpc, reference, nesting or package. Two decoded values compare equal if they have the same type, fields, numbers, values and garbage, and unequal if they differ in one of these at any depth (floating point numbers compare as numbers: zeros of either sign are equal and NaN equals nothing). Comparison is symmetric and, NaN aside, a clone equals its original.",
 ["configurations","inputs"],"all pairs of file sets that differ in one declaration, contexts parsed or built through the API, and all pairs of values that differ in one place",
 "Tests compare a hand-built context with the equal parsed one only; an equality that overlooks a difference passes them.",
 [C,D],[("PartialEq of Context and its parts",C),("PartialEq of MessageValue, Value and their parts",D)],
 ["== and != on Context, MessageValue and Value"])
p("C26","Parsing costs stay in proportion to the text",
 "The time and memory that parsing takes are at most a fixed multiple of the size of the texts (plus, for each type and each type reference, the full names of the scopes around it), for valid and for broken texts: no repetition, nesting, number of files or position of an error makes parsing super-linear beyond that.",
 ["inputs"],"all texts, in particular long runs and deep nesting of any construct, many files and declarations, and errors at the end of a long text",
 "The tests parse tiny files; backtracking in a PEG, scans over all declarations and copies of the input show only on large or nested texts.",
 [G,P,B],[("ordered choices that fail early",G),("lookups by name through hash maps",B)],
 ["processor time and allocations of Context::parse"])
p("C27","Names carry no meaning of their own",
 "Replacing every identifier in a set of files one to one by another identifier (that is no keyword where the language wants none) changes nothing but the names: the context has the same structure, references, numbers, types and options under the new names, and payloads decode and encode the same.",
 ["configurations","inputs"],"all sets of proto3 files and all one-to-one replacements of their identifiers, including permutations, keyword-like and very long identifiers",
 "Tests use a handful of short, dissimilar names; a dependence on particular spellings, prefixes, lengths or on the order of names shows only when names vary.",
 [P,B,G],[("names are opaque strings, compared whole",B),("identifiers in the grammar",G)],
 ["contexts of the original and of the renamed files","decode results with both"])
p("C28","Decoding and encoding costs stay in proportion to the payload",
 "The processor time of decoding a payload is at most a fixed multiple of the payload's size, and that of encoding a value (and the memory it takes) a fixed multiple of the size of the encoding times the depth of its nesting: no number, order, repetition, kind, nesting or damage of fields makes it super-linear. It does not depend on how much the context declares beyond what the payload uses, except through lookups that are at most logarithmic.",
 ["inputs","configurations"],"all payloads and values in particular long runs of any kind of field, large leaves, arrays, deep nesting, damage with much data after it, and schemas with thousands of fields, oneofs, messages or enum values",
 "The tests decode payloads of a few bytes against schemas of a few fields; a scan over the fields seen so far, over the declared fields, or a second pass over nested content costs nothing there.",
 [D,A],[("one pass over the data",D),("field lookup by number",A),("nested values encoded once",D)],
 ["processor time of MessageInfo::decode and MessageValue::encode","allocations of MessageValue::encode"])
p("C29","Unrelated declarations do not influence each other",
 "Parsing files together with others whose top level names they do not use (a schema in a package of its own, or moved as a whole into a package or message with a new name, even a copy of the first one) gives for each the same items, members, references, options, orders and decode and encode results as parsing it alone, and an error if one of them alone gives an error.",
 ["configurations","inputs"],"all pairs of sets of proto3 files of which one is moved below a new name, in any interleaving of their files and declarations",
 "The tests parse one small schema at a time; a mix-up between items of equal simple names, numbers that count through the whole context, or state that leaks from one declaration to the next needs two schemas side by side.",
 [P,B,C],[("name resolution by full name and scope",B),("references are positions within the context",B)],
 ["contexts of each set alone and of both together","decode and encode results with both"])
p("C30","Nested messages decode and encode as they would on their own",
 "Decoding bytes as the content of a message field, at any level down to the nesting limit and with any complete fields around it, gives the message value that decoding the same bytes as that message type on their own gives, be they valid or not; and a value encodes to the encodings of its fields one after the other, a message field to its tag, its length and the encoding of the message on its own.",
 ["inputs","configurations"],"all schemas, all contents (valid, damaged, truncated, random), all positions within all enclosing messages up to 100 levels",
 "The tests nest one message one level deep with a valid content; state that leaks between levels or siblings, and rules applied only at the top or only below it, need combinations of damage, position and depth.",
 [D],[("Value::decode for messages and decode_nested",D),("MessageValue::encode and Value::encode for messages",D)],
 ["nested MessageValues","MessageValue::encode output bytes"])
p("C31","What decoding returns fits the declarations",
 "Whatever the bytes, every value that decoding returns fits the declaration of its field: typed values only for declared fields and of exactly the declared type (also the referenced enum or message), packed arrays only for repeated numeric fields and of that type, raw unknown values only where no field is declared, the wire type is another one or the nesting limit is reached, Incomplete only for bytes that are not a whole value and Invalid only for wire types that do not exist, both with nothing after them (a broken packed array aside), garbage only where no tag begins. There are no more values than bytes.",
 ["inputs","configurations"],"all byte strings and all message types of parsed and hand built contexts, all levels of the result",
 "The tests look at the results of half a dozen payloads; that a match on the variant the schema promises can never be surprised is a statement about every payload.",
 [D],[("dispatch on declaration and wire type in decode_nested",D),("Value::decode / decode_packed / decode_unknown",D)],
 ["MessageValue fields at every level"])
p("C32","Syntax errors point at the place of the fault",
 "When a file is outside the grammar, contains a number out of range or an unsupported map field, parsing fails with a syntax error that shows a line and a column of that file as it was given (byte order mark, line endings and comments included). The place is never behind the fault and never before the statement that contains it.",
 ["inputs"],"all files with a fault at any token boundary, in any layout, among any other files",
 "The tests look at no error text at all; a place is wrong only for certain layouts (line endings, comments, byte order marks, non-ASCII text) and certain positions of the fault.",
 [P,G,C],[("the text is given to the parser as it is",P),("check_values reports the span of the offending item",P),("ParseError::SyntaxError shows its source",C)],
 ["Display of ParseError::SyntaxError and of its source"])
p("C33","Lookups find exactly what was declared",
 "In every context, whether parsed, built by insertion or modified after parsing, each type, service, field, rpc, oneof and enum value is found under exactly its declared full name, name, number, value or reference, and is the same item whichever way it is looked up; nothing is found under a key that nothing declares, however close it is to a declared one (case, spaces, dots, look-alike characters, names of other items, numbers equal in their low bits). Fields are iterated in the order of their numbers, each once.",
 ["inputs","configurations","histories"],"all contexts with any names, field numbers and enum values the API accepts, and all lookup keys",
 "The tests look up a handful of names that exist and none that does not; a normalised, truncated or aliased key shows only for special names and numbers.",
 [A,M,B],[("get_type, get_message, get_service, get_field, get_field_by_name, get_oneof, get_field_by_value, rpc_by_name, iter_fields",A),("insertion into the maps",M),("maps built from parsed files",B)],
 ["results of all lookup methods"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
