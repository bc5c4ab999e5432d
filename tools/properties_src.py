ABI=["abi/io/alignment.go","abi/io/size.go","abi/io/despecialize.go"]
p("P01","Component value types have their Canonical ABI size and alignment",
  "The size and alignment computed for every component value type equal what the Canonical ABI prescribes: fixed widths for scalars and handles, an 8-byte pair aligned to 4 for strings and lists, records padded in declaration order, variants as the smallest 1/2/4-byte discriminant that fits the case count followed by the most-aligned payload, and flags as 1, 2 or 4-times-n bytes. Tuples, unions, enums, options and results are laid out exactly as the record or variant they abbreviate.",
  ["inputs"],"for every value type, including composite types of any arity and nesting",
  "Types form an infinite family (any number of fields, cases and labels) and a wrong threshold or padding step shows only at particular arities; both sides of a store/load round trip share the same mistake.",
  ABI,[("size and alignment dispatch over value types","abi/io/size.go, abi/io/alignment.go"),("expansion of tuple/union/enum/option/result","abi/io/despecialize.go")],
  ["size and alignment results for a value type","byte offsets at which a compliant guest finds fields and payloads"])
p("P02","Types and signatures flatten to the Canonical ABI core types",
  "Every component value type flattens to the exact sequence of core value kinds the Canonical ABI prescribes, with variant payload slots joined pairwise across cases after a leading i32 discriminant. A signature whose flattened parameters or results exceed the given limit is replaced by a single pointer: an i32 parameter for parameters, an i32 result when lifting, and one extra trailing i32 parameter with no results when lowering.",
  ["inputs"],"for every value type, every function signature and every pair of limits",
  "The number of type shapes and limit combinations is unbounded, and a wrong join only shows for a particular ordering of case payload kinds.",
  ["abi/io/flatten.go"],[("flattening dispatch and slot join","abi/io/flatten.go"),("signature flattening for lift and lower","abi/io/flatten.go")],
  ["core function type produced for a component function type"])
p("P03","Scalars are stored little-endian at their exact width and sign",
  "Loading an integer, float, char or bool from guest memory yields the little-endian value of exactly its declared width and signedness at the given address, and storing one writes exactly that many bytes there and nothing else. Booleans are stored as 0 or 1 and any non-zero byte loads as true.",
  ["inputs"],"for every scalar type, address, memory content and value",
  "Value and address spaces are far too large to enumerate; a width or sign slip only shows for values with high bits set, and a symmetric slip survives every round-trip test.",
  ["abi/io/load.go","abi/io/store.go"],[("integer and float loads","abi/io/load.go"),("integer and float stores","abi/io/store.go")],
  ["value returned by a load","bytes of guest memory after a store"])
p("P04","Guest memory is never accessed out of bounds",
  "No lifting or lowering operation reads or writes outside the current guest memory, whatever pointer, length or code-unit count the guest or its allocator supplies, including ones whose sum or product does not fit in 32 bits. Such an operation fails with an error instead of crashing the host or touching other bytes.",
  ["inputs"],"for every pointer, length, code-unit count, allocator answer and memory size",
  "Guest-controlled 32-bit quantities give an astronomically large input space and wrap-around needs values near 2^32 that tests with small heaps never use.",
  ["abi/io/load.go","abi/io/store.go","abi/io/canon_lift.go","abi/io/canon_lower.go"],[("range checks before slicing guest memory","abi/io/load.go, abi/io/store.go")],
  ["error returned instead of a panic","bytes of guest memory outside the addressed range"])
p("P05","Misaligned guest pointers are rejected before memory is used",
  "A pointer to a string, list, spilled parameter or result tuple, or any value being stored is accepted only if it is a multiple of the alignment its contents require; otherwise the operation fails before reading or writing through it. Pointers returned by the guest allocator are held to the same rule.",
  ["inputs"],"for every pointer, element type and string encoding",
  "Misalignment is a property of address and type together; tests use naturally aligned heaps.",
  ["abi/io/load.go","abi/io/store.go","abi/io/canon_lift.go","abi/io/canon_lower.go","abi/io/alignment.go"],[("alignment comparison guarding loads, stores and spills","abi/io/load.go, abi/io/store.go, abi/io/canon_lift.go, abi/io/canon_lower.go")],
  ["error for a misaligned pointer"])
p("P06","Only Unicode scalar values cross the boundary as chars",
  "A 32-bit value is lifted to a character, from memory or from a flat value, exactly when it is below 0x110000 and not a surrogate (0xD800 to 0xDFFF); every other value traps. An accepted value is lifted unchanged.",
  ["inputs"],"for all 2^32 core values",
  "The boundary values are few among 4 billion and an off-by-one in either range edge passes ordinary tests.",
  ["abi/io/load.go","abi/io/lift.go"],[("conversion of a u32 to a rune","abi/io/load.go")],["trap or rune returned by lifting a char"])
p("P07","Every NaN crossing the boundary is the canonical NaN",
  "A 32- or 64-bit float that is NaN is replaced by the canonical NaN bit pattern whenever it is loaded, stored, lifted or lowered, and every other float crosses with its bits unchanged.",
  ["inputs"],"for every float bit pattern, on each of the four crossing directions and both widths",
  "There are 2^53 NaN payloads and four independent crossing paths; a missing canonicalisation on one path is invisible to comparisons because NaN never equals itself.",
  ["abi/io/canonicalize.go","abi/io/load.go","abi/io/store.go","abi/io/lift.go","abi/io/lower.go","abi/values/float.go"],[("NaN canonicalisation","abi/io/canonicalize.go")],["bit pattern of a lifted, lowered, loaded or stored float"])
p("P08","Flat scalars wrap, extend and convert exactly",
  "Lifting an integer from a core value keeps exactly the low bits of its declared width interpreted with its declared sign, and lifting a bool yields whether the core value is non-zero. Lowering zero-extends unsigned and sign-extends signed integers, maps booleans to 0 or 1, and produces core values of the kind the flattened type announces.",
  ["inputs"],"for every core value and every component scalar value",
  "Only values with particular high bits distinguish truncation, masking and sign extension.",
  ["abi/io/lift.go","abi/io/lower.go","abi/values/int.go","abi/values/float.go"],[("flat lifting and lowering of scalars","abi/io/lift.go, abi/io/lower.go")],["lifted scalar","lowered core value and its kind"])
p("P09","Variant discriminants and payload slots are honoured",
  "A variant is lifted, loaded, lowered or stored through the case its discriminant selects, with the payload at the aligned offset after the discriminant (in memory) or in the joined slots (flat); a discriminant not below the number of cases traps. Flat payloads are bit-reinterpreted between the case's kinds and the joined kinds, every joined slot is consumed on lift, and unused slots are zero on lower.",
  ["inputs"],"for every variant type, discriminant and payload value",
  "Case counts, payload kinds and discriminants combine without bound, and the joined representation only matters when cases disagree in a specific way.",
  ["abi/io/load.go","abi/io/store.go","abi/io/lift.go","abi/io/lower.go","abi/values/coerce_value_iterator.go"],[("variant load/store/lift/lower","abi/io"),("slot coercion","abi/values/coerce_value_iterator.go, abi/io/lower.go")],["case label and payload lifted","flat values and bytes produced by lowering"])
p("P10","Each flag label owns the bit of its position",
  "Lifting or loading a flags value reports label i as set exactly when bit i of the packed words is set, and lowering or storing sets exactly the bits of the labels that are true; bits beyond the labels are ignored on the way in and zero on the way out. This holds in memory and in flat form for every label count accepted.",
  ["inputs"],"for every label list and every combination of set labels",
  "2^n combinations and several size classes; a wrong shift at a word boundary needs more than 32 labels.",
  ["abi/io/load.go","abi/io/store.go","abi/io/lift.go","abi/io/lower.go"],[("packing and unpacking of flags","abi/io/load.go, abi/io/store.go, abi/io/lift.go, abi/io/lower.go")],["label map lifted","words produced by lowering"])
p("P11","Records and lists place and return every member in order",
  "A record is loaded, stored, lifted and lowered field by field in declaration order, each field at the next offset aligned for it and under its own label; a list of n elements reads or writes element i at base + i times the element size for every i below n, in order. Lowering a list or storing it asks the guest allocator once for exactly its byte length at the element's alignment and publishes that pointer and the element count.",
  ["inputs"],"for every record type, list length and element type",
  "Arity and element types are unbounded and mistakes in the stride or padding show only with particular field mixes.",
  ["abi/io/load.go","abi/io/store.go","abi/io/lift.go","abi/io/lower.go"],[("record and list traversal","abi/io/load.go, abi/io/store.go, abi/io/lift.go, abi/io/lower.go")],["members of a lifted value","bytes written for a lowered value","allocator requests"])
p("P12","Strings cross with the right encoding, length unit and tag",
  "A string is decoded from exactly code-units times code-unit-size bytes at its pointer using the encoding in force, where the dynamic latin1+utf16 encoding is resolved per string by the tag bit of the length; it is encoded likewise, with the allocator asked for the encoded byte length at the encoding's alignment and the code-unit count (tagged for UTF-16) published. Each registered encoding reports its own name, alignment and code-unit size, and an unknown encoding is an error.",
  ["inputs","configurations"],"for every string, encoding, pointer and tagged length",
  "Encodings, tag bit and lengths combine; the tag bit only matters for lengths with bit 31 set.",
  ["abi/io/load.go","abi/io/store.go","abi/io/code_units.go","encoding/codec.go","encoding/factory.go","encoding/latin1.go","encoding/utf8.go","encoding/utf16.go"],[("string load and store","abi/io/load.go, abi/io/store.go"),("tagged code units","abi/io/code_units.go"),("codec registry","encoding/factory.go")],["decoded string","allocator request and published pair"])
p("P13","Every value type is supported alike in all directions",
  "Every value type that has a size, an alignment and a flattening can also be loaded, stored, lifted and lowered, and a type that one of these operations does not know is refused with an error by it rather than treated as something else.",
  ["programs"],"for every value type constructor and each of the seven operations",
  "The matrix of type constructors and operations is only as complete as the test list, and a forgotten cell is silent until a guest uses it.",
  ["abi/io/size.go","abi/io/alignment.go","abi/io/flatten.go","abi/io/load.go","abi/io/store.go","abi/io/lift.go","abi/io/lower.go"],[("per-type dispatch in each operation","abi/io")],["success or error per type and operation"])
p("P14","Handle tables never alias, leak or resurrect handles",
  "Adding a handle returns an index that refers to no live handle, reusing freed indices before growing the table; looking up or removing an index that is out of range or not live traps; removing a live handle frees exactly that index. Handles of one resource type are invisible through another.",
  ["histories"],"for every sequence of add, get and remove operations",
  "Corruption needs a particular interleaving of adds and removes that example-based tests do not contain.",
  ["abi/types/handle.go","internal/collections/stack/stack.go"],[("handle table and free list","abi/types/handle.go"),("stack push/pop","internal/collections/stack/stack.go")],["index returned by add","handle or trap returned by get and remove"],
  [("free list","indices of empty slots, each exactly once","abi/types/handle.go")])
p("P15","Owned and borrowed handles follow the ownership protocol",
  "Lifting an owned handle removes it from the caller's table and refuses one that is currently lent out; lifting a borrowed handle keeps it and counts one more loan until the call ends, when each loan is returned exactly once. Lowering an owned resource adds an owning handle, lowering a borrow adds a handle scoped to the call unless the resource belongs to the receiving instance, a call cannot end while scoped borrows remain, and dropping an owning handle runs the destructor once with its representation while dropping a borrow runs none.",
  ["histories"],"for every sequence of resource operations and calls",
  "Ownership mistakes surface only across several calls and drops in a particular order.",
  ["abi/io/lift.go","abi/io/lower.go","abi/io/canon.go","abi/types/context.go","abi/types/handle.go"],[("own/borrow lifting and lowering","abi/io/lift.go, abi/io/lower.go"),("loan and borrow accounting","abi/types/context.go"),("resource built-ins","abi/io/canon.go")],["handle table contents","loan counters","destructor calls"])
p("P16","Component calls respect entry and leave permissions and their order",
  "A call into or out of an instance whose entry or leave permission is withdrawn fails before any argument is touched; while values are being lowered the instance may not be left, and the permission is back once lowering has succeeded and before the callee or the caller's cleanup runs. Arguments are lowered before the callee runs, results are lifted after it, and the post-return step runs the guest's post-return hook, then ends the call; a lowered function reports a failure to end the call, and withdraws its instance's entry permission for the duration of an import call.",
  ["histories","fault_sequences"],"for every call, including ones where a step fails",
  "Permissions are transient state that is only visible to re-entrant callbacks and on failing paths.",
  ["abi/io/canon_lift.go","abi/io/canon_lower.go"],[("lift and lower call sequences","abi/io/canon_lift.go, abi/io/canon_lower.go")],["error for a forbidden call","instance permissions observed inside callbacks","order of callbacks"])
p("P17","Spilled arguments and results keep their positions",
  "When flattened parameters or results exceed the limit they are passed as one tuple in memory whose members correspond by position: lowering writes every value to its own slot of the allocated or supplied area and passes that area's address as a core i32, and lifting returns the members in declaration order. At or below the limit each value is passed flat in order.",
  ["inputs"],"for every signature, limit and argument list",
  "Spilling needs signatures above the limit, and an order that depends on map iteration passes a test most of the time.",
  ["abi/io/canon_lift.go","abi/io/canon_lower.go"],[("value lists lifted and lowered flat or through memory","abi/io/canon_lift.go, abi/io/canon_lower.go")],["argument list seen by the callee","result list seen by the caller","guest memory"])
p("P18","No operation reports success after one of its steps failed",
  "Whenever a step an operation depends on fails (a read, a lookup, a conversion, a nested operation or a caller-supplied callback), the operation itself fails; it never returns a value with no error in that case. The only tolerated failure is the end of input between two module sections.",
  ["fault_sequences"],"for every failing step in every exported operation of the library",
  "Each of hundreds of failure points would need its own fault injection; most are unreachable with well-formed inputs.",
  ["abi/io","abi/types","abi/values","binary/read.go","encoding","leb128","runtime","wat","wit","wast","internal/collections"],[("error results of calls","all packages"),("result values unwrapped by the parsers","wat/parse, wit/parse, wast/parse")],["error result of exported operations"])
p("P19","Ill-typed or exhausted values are errors, never host crashes",
  "Lifting, lowering, loading, storing and flattening never crash the host: a host value of the wrong dynamic type, a missing member, a core value of the wrong kind or too few core values makes the operation return an error.",
  ["inputs"],"for every value, value list and type passed to the value conversion operations",
  "The wrong-type space is the whole of the host's dynamic types at every nesting level.",
  ["abi/io","abi/values"],[("dynamic type checks and value iteration","abi/io, abi/values/value.go")],["error instead of panic"])
p("P20","LEB128 numbers decode and encode exactly",
  "Decoding an unsigned LEB128 number returns the sum of its 7-bit groups, least significant first, together with the number of bytes consumed, and fails when the input ends inside a number or the value does not fit in 32 bits; all decoding entry points agree. Encoding emits 7-bit groups least significant first with the continuation bit on all but the last byte and decodes back to the same value.",
  ["inputs"],"for every byte sequence and every 32-bit value",
  "2^32 values and unboundedly many malformed inputs; the last group's spare bits and truncated input are rarely tested.",
  ["leb128/decode.go","leb128/encode.go"],[("decoders","leb128/decode.go"),("encoder","leb128/encode.go")],["value, length and error of decoding","bytes written by encoding"])
p("P21","Binary modules are read field by field as the format lays them out",
  "A binary module is read as magic, version and layer, then sections of id, byte size and content; type, function, export and code contents are read as counted vectors whose entries consist of exactly the fields of the binary format in its order, with the format's type, export-kind and instruction codes. Each decoded entry appears in the result at its own position, and a section with any other id is skipped by exactly its size.",
  ["inputs"],"for every well-formed module using the supported constructs",
  "Only a handful of modules are available as fixtures; any field, code or position not exercised there is unchecked.",
  ["binary/read.go","binary/binary.go","opcode/opcode.go"],[("section and vector readers","binary/read.go"),("format codes","binary/binary.go, opcode/opcode.go")],["document returned by reading"])
p("P22","Malformed or truncated binaries are rejected without crashing",
  "Reading a binary with a wrong magic number, an unsupported version, an unknown value type, export kind or instruction code, a count that disagrees between function and code section, or an end of input anywhere but between sections returns an error; no input makes the reader panic.",
  ["inputs"],"for every byte sequence",
  "The malformed input space is unbounded; each rejection is a separate branch that well-formed fixtures never take.",
  ["binary/read.go","leb128/decode.go"],[("validation branches and reads","binary/read.go")],["error result of reading"])
p("P23","Text lexers split the input into adjoining, correctly placed tokens",
  "Each token of the text and interface lexers carries exactly the input between the end of the previous token and its own end, with the byte offset, line and column of its first byte; every call makes progress until the end-of-input token. Looking ahead never changes what is read next, and a copied lexer continues independently from the same place.",
  ["inputs","histories"],"for every input text and every sequence of look-ahead, read and copy operations",
  "Position bookkeeping mistakes need multi-line inputs and specific look-ahead interleavings, and no test compares positions exhaustively.",
  ["wat/lex/lexer.go","wit/lex/lexer.go"],[("token emission and position tracking","wat/lex/lexer.go, wit/lex/lexer.go"),("look-ahead slot and copying","wat/lex/lexer.go, wit/lex/lexer.go")],["token fields","token sequence after look-ahead or copy"])
p("P24","Text-format tokens are classified as the lexical grammar says",
  "Whitespace, line comments (;; to the end of the line), block comments ((; to the next ;)), strings (a double quote to the next one), identifiers ($ and at least one identifier character), parentheses and reserved words (identifier characters) of the text format are recognised by longest match with exactly these character classes, and input that starts no token or ends inside a string or block comment is an error. A reserved word that is a decimal or hexadecimal integer, a floating-point number (with optional fraction and exponent, inf, or nan with optional payload) or one of the keywords module and component gets that token type; digits may be separated by underscores.",
  ["inputs"],"for every input text",
  "256 byte values in every lexer state; a single wrong character class is invisible unless a test uses that byte.",
  ["wat/lex/lexer.go","wat/lex/dfa.go","wat/lex/string.go"],[("token automata","wat/lex/lexer.go"),("longest-match loop","wat/lex/lexer.go")],["token type sequence or error"])
p("P25","Interface-language tokens are classified as the grammar says",
  "The interface lexer maps each punctuation mark, arrow, keyword, identifier, escaped identifier and integer to its own token type, nests block comments, ends line comments at the newline, and fails on an unterminated block comment or a character that starts no token.",
  ["inputs"],"for every input text",
  "Forty keywords and twenty marks, each an independent table entry; comments nest to any depth.",
  ["wit/lex/lexer.go","wit/token/types.go"],[("lexer dispatch and keyword table","wit/lex/lexer.go")],["token type sequence or error"])
p("P26","Text parsers fail with an error and never crash or accept silently",
  "For any input the text, script and interface parsers either return a tree or return an error: a lexing error, an unexpected token or premature end of input at any depth surfaces as the returned error, never as a panic and never as success.",
  ["inputs"],"for every input text and every parser entry point",
  "Every token position of every production is a separate failure point.",
  ["wat/parse/parser.go","wit/parse/parser.go","wast/parse/parser.go","wat/lex/lexer.go","wit/lex/lexer.go"],[("result unwrapping and recovery","parsers and lexers")],["error result of parsing"])
p("P27","The interface-language parser accepts exactly its grammar",
  "The interface parser accepts a document exactly when its token sequence is derivable from the supported grammar of packages, uses, interfaces, worlds, type definitions, resources, functions and types, ignoring whitespace and comments wherever they appear between tokens.",
  ["inputs"],"for every token sequence",
  "The language is infinite; a missing or extra separator in one production shows only for inputs that exercise it.",
  ["wit/parse/parser.go"],[("recursive-descent productions","wit/parse/parser.go")],["acceptance or error for a document"])
p("P28","The text and script parsers accept exactly their grammar",
  "The text-format parser, which reads one module or component from the front of its input, and the script parser, which reads all of it, accept an input exactly when what they read is derivable from the supported grammar of modules, functions, types, tables, globals, memories, instructions, assertions, actions and constants, ignoring whitespace and comments between tokens.",
  ["inputs"],"for every token sequence",
  "The language is infinite and folded instructions nest to any depth.",
  ["wat/parse/parser.go","wast/parse/parser.go"],[("recursive-descent productions","wat/parse/parser.go, wast/parse/parser.go")],["acceptance or error for an input"])
p("P29","Parsed trees contain every parsed construct in its own place",
  "Each name, type, index, constant and nested construct accepted by a parser appears in the resulting tree in the member meant for it, in source order; nothing that was parsed is dropped, duplicated, swapped with a sibling or replaced by an empty placeholder.",
  ["inputs"],"for every accepted input",
  "Trees are compared in tests only for a few inputs; a field left unset or swapped in one production is invisible elsewhere.",
  ["wat/parse/parser.go","wit/parse/parser.go","wast/parse/parser.go"],[("tree construction in each production","parsers")],["members of the returned tree"])
p("P30","Numeric constants keep their full width, range and sign",
  "An integer constant is accepted exactly when it fits the signed or unsigned range of its type (32 or 64 bits) and keeps its two's-complement value; a float constant is rounded once to its own precision, and NaN constants keep their sign and payload.",
  ["inputs"],"for every numeric literal",
  "Only literals beyond 32 bits or beyond single precision show a width mistake.",
  ["wat/parse/parser.go","wast/parse/parser.go"],[("number parsing","wat/parse/parser.go")],["constant stored in the tree"])
p("P31","Instantiating a module registers its functions at fresh addresses",
  "Instantiating a module appends each of its functions to the store in order without disturbing existing entries and records for each the address at which the store holds it; an export is found by its exact name and a missing name is reported as absent.",
  ["histories"],"for every store content and module",
  "Address mix-ups need a store that already holds functions.",
  ["runtime/instance.go","runtime/store.go"],[("instantiation and export lookup","runtime/instance.go")],["function addresses","export lookup result"])
