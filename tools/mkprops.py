#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Parsing valid JSON and serialising it again loses nothing",
  "For every syntactically valid JSON text, Document.Parse succeeds, consumes the whole value, and AppendJSON on the resulting node (and Document.AppendJSON, PrintJSON for a document whose only root it is) yields exactly the input with the insignificant whitespace removed: same member order, same duplicate members, same number and string spellings. The same holds for every node inside the tree, each of which serialises to its own slice of the input.",
  ["inputs"], "all valid JSON texts of every shape, size, nesting up to 10,000 levels, whitespace layout, escape spelling and number spelling, parsed into a fresh document",
  "Tests parse four fixture files and a few dozen literals; scanner edge cases (quotes and backslashes at every offset, table growth, key lengths around the scan heuristics) are combinatorial.",
  ["parser.go", "document.go", "node.go", "bytemaps.go"],
  [("recursive scanner and string scan", "parser.go (parser).parseValue/parseArray/parseObject"), ("node table growth", "parser.go (parser).node, appendV"), ("serialiser", "document.go (Document).appendJSON")],
  ["Document.Parse", "Node.AppendJSON", "Document.AppendJSON"])
p("C02", "Malformed and truncated text is rejected cleanly and precisely",
  "Text that breaks JSON's structure (brackets, commas, colons, quotes, literals) is never accepted, Parse returns an error and never panics on any bytes, and a failed Parse leaves everything already in the document intact. A proper prefix of a document that more input could complete yields UnexpectedEOF with the whole input returned as the tail so that the caller can append and retry; any other structural error yields a *ParseError whose Pos lies within the first offending token.",
  ["inputs"], "all byte strings, in particular every truncation and every small structural mutation of valid documents; the spelling inside number tokens and string bodies, which the parser documents as lazily checked, is not part of this property",
  "The tests list about twenty malformed strings; where an error is detected depends on each combination of parser state and next byte.",
  ["parser.go", "error.go"],
  [("abort/eof exits of each parser state", "parser.go (parser).abort, (parser).eof"), ("error mapping and tail", "parser.go (Document).Parse"), ("error types", "error.go ParseError, UnexpectedEOF")],
  ["Document.Parse", "ParseError.Pos", "UnexpectedEOF"])
p("C03", "Concatenated values parse one by one from the returned tail",
  "When a text holds several JSON values one after another, with or without whitespace where JSON allows either, each Parse consumes exactly the first value and returns the rest of the input unchanged as tail, so repeated parsing yields exactly the sequence of values. All values parsed into the same document stay intact and independently readable, whatever was parsed after them and whether or not later parses fail.",
  ["inputs", "histories"], "sequences of 1-20 valid values of any type joined by any amount of whitespace (none where unambiguous), parsed into one document, with failing parses interleaved",
  "Only single values and one or two fixed tails are tested; loss of an earlier root needs a particular growth pattern of the shared node table.",
  ["parser.go", "document.go"],
  [("position returned by each scanner", "parser.go (Document).Parse"), ("roots share one node table", "parser.go (Document).parser, (parser).node")],
  ["Document.Parse tail", "Node.AppendJSON of earlier roots"])
p("C04", "Reused and pooled documents behave exactly like new ones",
  "After Reset, or after Close/Pool.Put and a later Blank/Pool.Get, a document is empty, and parsing or building anything in it gives exactly the results a brand new document gives. Nothing parsed, built, edited, or left behind by a failed parse earlier in the document's life is observable afterwards.",
  ["histories"], "histories of parse, failed parse, build, edit, reset, close and pool operations of up to about 60 steps over several documents and pools, compared after every step with fresh documents",
  "Reuse is exercised by a handful of tests with one shape; leaks need a particular pair of old and new tree shapes in the recycled node and value slices.",
  ["document.go", "parser.go", "node.go"],
  [("recycling of nodes and their value slices", "parser.go (parser).node, parseArray, parseObject; document.go (Document).grow, (node).reset"), ("pools", "document.go Pool, Blank, (Document).Close, (Document).Reset")],
  ["Document.Parse", "Node.AppendJSON", "Node.Values", "Pool.Get/Put"],
  [("Document.nodes beyond len", "recycled nodes with old values", "document.go")])
p("C05", "Handles of a reset or closed document are inert",
  "Once a document is reset or closed, every node obtained before behaves as an empty node: TypeInvalid, no data, no values, no conversions, and serialisation reports an error. Using such a node, the zero Node, or the result of a failed lookup as receiver or as argument of any read or edit operation never panics and never changes any document, even after the document has been refilled.",
  ["histories"], "histories in which nodes and iterators from earlier document lives, zero nodes and missing lookups are used as receivers and arguments of every Node method while the document holds new content",
  "Tests check a few methods on one empty node; they never mix stale handles with live content of recycled slots.",
  ["node.go", "document.go"],
  [("revision check on every access", "node.go (Node).get, (Node).Document"), ("revision bump", "document.go (Document).Reset"), ("ignored invalid arguments", "document.go (Document).copyOrAdopt; node.go Set/Append/Replace")],
  ["all Node methods"])
p("C06", "Navigation agrees with the document's content",
  "Type, Raw, Data, Get, Index, Lookup and the Values iterator (Key, Index, Len, Value, Next, Reset, Close) agree with a reference reading of the same JSON text: first matching member for duplicate keys (compared as spelled in the text), n-th array element, and an empty node for any missing key, out of range or non-numeric index, or path through a scalar. The iterator visits each value exactly once in document order, reports indices from 0, stays exhausted until Reset, and after Reset visits the same sequence again.",
  ["inputs"], "all valid documents and, per document, existing, nearly matching and missing keys, indices and paths, including empty keys, huge indices and non-digit index strings",
  "Tests look up fixed paths in fixed documents; index parsing and key comparison are only tried on a few values.",
  ["node.go", "document.go"],
  [("path resolution", "document.go (Document).lookup"), ("member and element access", "node.go (Node).Get, (Node).Index"), ("iteration", "node.go IterV")],
  ["Node.Get", "Node.Index", "Node.Lookup", "Node.Values"])
p("C07", "Scalar reads return the exact value or refuse",
  "For every number node ToFloat returns the correctly rounded float64, and ToInt and ToUint return the exact integer when the number is integral and in range, and otherwise report false; they never report success with a wrong value. ToBool succeeds exactly on true and false, Unescaped returns the decoded text exactly on string nodes, and null, boolean, array and object nodes never convert to a number.",
  ["inputs"], "all JSON numbers (including 18-25 digit integers, halfway decimals, exponents) and strings, as values inside parsed documents and as values written with SetInt, SetUint, SetFloat, SetString, Text and Number",
  "Number tests use short literals that any rounding strategy gets right; the failing inputs are a sparse set of digit strings near 2^53, 2^63 and 2^64 and halfway points.",
  ["node.go", "numjson/numjson.go"],
  [("conversions", "node.go (Node).ToFloat/ToInt/ToUint/ToBool/Unescaped"), ("number parser", "numjson/numjson.go")],
  ["Node.ToFloat", "Node.ToInt", "Node.ToUint", "Node.ToBool", "Node.Unescaped"])
p("C08", "ToInterface equals what encoding/json decodes",
  "For every valid JSON text of valid UTF-8 whose numbers are finite in float64, converting the parsed node to a generic Go value gives a value deeply equal to the one encoding/json.Unmarshal gives for an empty interface, keys and strings unescaped. The same holds for every node inside the document, and the result shares no mutable state with the document. A text with a number that overflows float64 is refused, as encoding/json refuses it.",
  ["inputs"], "all valid UTF-8 JSON texts, with numbers of any size, including escaped keys, duplicate keys, and empty containers",
  "Tests compare a dozen literals; escaped keys and key collisions after unescaping are never tried.",
  ["document.go", "strjson/unescape.go", "numjson/numjson.go"],
  [("conversion", "document.go (Document).toInterface, toInterfaceMap, toInterfaceSlice")],
  ["Node.ToInterface"])
p("C09", "Document edits behave like edits of an ordinary tree",
  "After any sequence of constructor and edit calls (Object, Array, Text, Number, ..., Set, Del, Append, Slice, Replace, Remove, Strip, SetInt, SetUint, SetFloat, SetString, SetTrue, SetFalse, SetNull) with in-domain arguments, the tree read back through every accessor and through serialisation equals the tree obtained by applying the same edits to a plain in-memory model, and the serialised text is valid JSON. Operations on nodes of the wrong type or with out of range indices change nothing, and Set keeps the position of an existing key and adds new keys at the end.",
  ["histories"], "edit histories of up to about 80 operations over documents holding parsed and constructed trees; Del and Strip are compared up to member order, which they document they do not keep, and Strip on texts with duplicate keys only for the absence of the key",
  "Tests apply one to three edits to one small document each; interactions of edits with the shared node table, with slices that alias and with recycled nodes are not reached.",
  ["node.go", "document.go"],
  [("edit operations", "node.go Set/Append/Slice/Replace/Remove/Strip/Del/Set*"), ("constructors", "document.go Null/False/True/Text/TextRaw/TextHTML/Object/Array/Number"), ("copy or adopt", "document.go (Document).copyOrAdopt, ncopy")],
  ["Node accessors", "Node.AppendJSON"])
p("C10", "Inserting nodes never makes cycles or hidden sharing",
  "However nodes of one document are inserted into each other with Set, Append and Replace, including into themselves, into their own descendants or ancestors, or repeatedly, every node still serialises in finite time to valid JSON and the stored value equals the inserted value as it was at that moment. A value that already had a place in the document is inserted as an independent copy: editing either one later never changes the other.",
  ["histories"], "histories of insertions of arbitrary nodes (fresh, parsed roots, inner nodes, the target itself, its ancestors and descendants, already inserted ones) mixed with edits, up to about 60 operations in one document",
  "No test inserts a node into its own subtree or edits after inserting a copy; cycles need specific multi-step histories.",
  ["document.go", "node.go"],
  [("orphan detection", "document.go (Document).copyOrAdopt, infRoot flag"), ("deep copy", "document.go (Document).ncopy")],
  ["Node.AppendJSON", "Node.Values"])
p("C11", "Values moved between documents are independent deep copies",
  "Inserting a node of one document into another stores a deep copy equal to the source at that moment, and leaves the source document unchanged. From then on editing, resetting, closing, refilling or growing either document never changes what the other one reads or serialises.",
  ["histories"], "histories over two to four documents that parse, build, insert across documents (from pooled and plain documents), edit on both sides, reset and refill, up to about 60 steps",
  "One test copies a value between documents; it never edits, resets or refills afterwards.",
  ["document.go", "node.go"],
  [("deep copy on foreign source", "document.go (Document).copyOrAdopt, ncopy")],
  ["Node.AppendJSON of all documents"])
p("C12", "String escaping is lossless and always produces valid JSON",
  "For every Go string, quoting the escaped form gives a valid JSON string that decodes (with any conforming decoder and with this library) to the original text, invalid UTF-8 bytes decoding to U+FFFD. The allocating and the appending form agree and leave the buffer's existing content alone, the result never contains raw control characters or U+2028/U+2029, and with the HTML flag it never contains <, > or & while without it they are kept verbatim.",
  ["inputs"], "all byte strings, both HTML settings, any destination buffer length and capacity",
  "Tests use about ten strings; the escaper skips runs of plain bytes so errors depend on the exact adjacency of plain, multi-byte, invalid and escaped bytes.",
  ["strjson/escape.go", "strjson/bytemaps.go"],
  [("escape tables", "strjson/bytemaps.go"), ("escaper", "strjson/escape.go Escaped, AppendEscaped")],
  ["strjson.Escaped", "strjson.AppendEscaped", "Document.Text", "Node.SetString"])
p("C13", "String unescaping matches the JSON standard and is total",
  "For the body of every valid JSON string, Unescaped, AppendUnescaped and Unescape give exactly the text encoding/json decodes, including surrogate pairs, with unpaired surrogates becoming U+FFFD and nothing following them lost. On arbitrary bytes all three never panic, agree with each other, never produce more bytes than the input has, keep invalid escapes literally, and leave the destination's existing content alone.",
  ["inputs"], "all JSON string bodies (every escape form, surrogate combination and multi-byte character at every adjacency) and arbitrary byte strings; destination buffers of any size at least the input's length",
  "Tests cover one pair and a few escapes; surrogate state combinations and truncated escapes at the end are many.",
  ["strjson/unescape.go", "strjson/bytemaps.go"],
  [("unescaper twins", "strjson/unescape.go Unescape, Unescaped, AppendUnescaped")],
  ["strjson.Unescape", "strjson.Unescaped", "strjson.AppendUnescaped"])
p("C14", "ParseFloat is correctly rounded and rejects non-numbers",
  "For every JSON number, numjson.ParseFloat returns the float64 nearest to the exact decimal value (infinite beyond range, signed zero kept), bit for bit what strconv.ParseFloat returns. For every string that is not an optionally signed decimal number with optional fraction and exponent it returns NaN.",
  ["inputs"], "all JSON numbers: up to several hundred digits, exponents of any size, halfway points, subnormals, shortest and 17-digit forms of random floats; and mutated non-numbers",
  "Tests list about a hundred literals chosen to survive naive arithmetic; misrounded decimals are dense but never sampled.",
  ["numjson/numjson.go"],
  [("digit accumulation and fallback", "numjson/numjson.go ParseFloat")],
  ["numjson.ParseFloat"])
p("C15", "ParseInt and ParseUint are exact or refuse",
  "For every JSON number, numjson.ParseInt and ParseUint report success exactly when the number denotes an integer in the range of int64 or uint64, and then return precisely that integer; non-numbers are refused. In particular no 64-bit integer is ever altered by passing through floating point.",
  ["inputs"], "all JSON numbers, integers near every power of two up to 2^65 and near the type limits, integers spelled with fractions and exponents, and non-numbers",
  "Tests use small integers, which any float-based conversion gets right.",
  ["numjson/numjson.go"],
  [("integer conversion", "numjson/numjson.go ParseInt, ParseUint")],
  ["numjson.ParseInt", "numjson.ParseUint"])
p("C16", "Formatted floats are valid JSON and round-trip exactly",
  "For every finite float64 or float32, FormatFloat and AppendFloat with the matching bit size give a valid JSON number that parses back to the same float, spelled exactly as encoding/json spells it. AppendFloat leaves the buffer's existing content alone and agrees with FormatFloat.",
  ["inputs"], "all finite float bit patterns, sampled over all exponents, at the switches between fixed and exponent notation and at their neighbours; any buffer length and capacity",
  "The test formats a handful of values; the exponent clean-up depends on exponent sign and width.",
  ["numjson/format.go"],
  [("format choice and exponent clean-up", "numjson/format.go AppendFloat")],
  ["numjson.FormatFloat", "numjson.AppendFloat", "Node.SetFloat", "Document.Number"])
p("C17", "unjson.Marshal produces the JSON encoding/json produces",
  "For every supported Go value (booleans, all integer sizes, finite floats, strings, pointers, slices, arrays, string-keyed maps, empty interfaces and structs of these, with json tags, omitempty and embedded structs) unjson.Marshal, AppendJSON and an Encoder give valid JSON with the same members in the same order, same numbers and same strings as encoding/json, apart from the documented differences (nil slices as [], byte slices as number arrays, map order, string escape spelling). Existing bytes of the destination are kept and the value is not modified.",
  ["programs", "inputs"], "random Go types built at run time and from a library of named, recursive and embedded types, with random values including nil pointers, maps and interfaces and extreme numbers",
  "Tests encode four structs; type shapes times values is an infinite space.",
  ["unjson/encode.go", "unjson/codec.go", "unjson/cache.go", "unjson/unjson.go", "unjson/omit.go"],
  [("encoders per kind", "unjson/encode.go"), ("struct field merge", "unjson/codec.go (structCodec).merge"), ("encoder cache", "unjson/cache.go")],
  ["unjson.Marshal", "unjson.AppendJSON", "Encoder.Encode"])
p("C18", "unjson.Unmarshal stores the value encoding/json would store",
  "Whenever encoding/json.Unmarshal decodes a text into a fresh value of a supported type, or (for texts without null and types whose slices hold scalars) into a value that already holds data, unjson.Unmarshal, UnmarshalFromString, UnmarshalFromNode and a Decoder decode it too and store a deeply equal value (keys matched exactly, unknown members ignored, escaped text decoded). The decoded value does not depend on what happens afterwards to the input buffer, the node or the pooled documents, decoding does not change the node, and decoding the same node twice gives equal values.",
  ["programs", "inputs"], "random supported types with type-directed documents: every member order, whitespace and escape spelling, unknown members, nulls everywhere, missing members, arrays shorter and longer than the Go array",
  "Tests decode a dozen fixed documents into fixed types.",
  ["unjson/decode.go", "unjson/codec.go", "unjson/cache.go", "unjson/unjson.go"],
  [("decoders per kind", "unjson/decode.go"), ("struct fields", "unjson/codec.go (structCodec).decode"), ("pooled documents", "unjson/unjson.go UnmarshalFromString")],
  ["unjson.Unmarshal", "unjson.UnmarshalFromString", "unjson.UnmarshalFromNode", "Decoder.Decode"])
p("C19", "Marshal followed by Unmarshal restores the value",
  "For every supported Go value, decoding with this library what this library encoded gives back an equal value (nil and empty slices identified, strings with invalid UTF-8 excepted), and encoding that value again gives the same JSON. The round trip also holds into a target that already holds data for types without maps, pointers or interfaces and without omitted fields: nothing of the old content remains.",
  ["programs", "inputs"], "random supported types including byte slices, recursive and embedded types, with random values; fresh and pre-filled targets",
  "Each direction has separate example tests; no test closes the loop.",
  ["unjson/encode.go", "unjson/decode.go", "unjson/codec.go"],
  [("encoder/decoder agreement on names, numbers and escapes", "unjson/codec.go, unjson/encode.go, unjson/decode.go")],
  ["unjson.Marshal", "unjson.Unmarshal"])
p("C20", "Undecodable or unencodable data is an error, never wrong data or a panic",
  "Whenever encoding/json refuses to decode a text into a type because of malformed JSON structure, a type mismatch at any depth, or a number that does not fit, unjson's decoding entry points return a non-nil error too, and they return an error for nil, non-pointer and nil-pointer targets and for unsupported types. A number, string or boolean that is refused leaves its target as it was. Whenever a value cannot be encoded (NaN, infinities, unsupported types, failing marshalers) encoding returns an error, and none of these calls ever panics.",
  ["programs", "inputs"], "random supported types against arbitrary documents and against documents with one mismatched or overflowing value at a random depth; values with one unencodable part; whole-number spellings such as 1.0 or 1e3 for integers are accepted by design and excepted",
  "Tests try mismatches at top level for basic types only.",
  ["unjson/decode.go", "unjson/encode.go", "unjson/unjson.go", "unjson/codec.go"],
  [("type checks per decoder", "unjson/decode.go"), ("error propagation from elements", "unjson/decode.go sliceDecoder, arrayDecoder, mapDecoder"), ("unsupported kinds", "unjson newEncoder/newDecoder")],
  ["errors of Unmarshal, Decode, Marshal, Encode"])
p("C21", "Struct tags and encoder options are honoured",
  "For every struct type, Encoder and Decoder use the names of the configured tag key (field name when untagged, nothing for '-'), resolve embedded fields by depth then order, and omit a field exactly when omitempty applies (by tag or by the OmitEmpty option) and its value is empty by kind or by its omit method (Omit or the configured name). AllowNaN and AllowInf only change how NaN and infinities are written, and the html and 8bit hints only how the tagged string is spelled.",
  ["configurations", "programs", "inputs"], "random struct types with tags under several keys, embedded structs and pointers with conflicting names, all option combinations, and random values biased to empty",
  "Tests cover one tag parse and one omit method.",
  ["unjson/options.go", "unjson/omit.go", "unjson/codec.go", "unjson/encode.go"],
  [("tag parsing", "unjson/options.go parseTag, parseHints"), ("omit rules", "unjson/omit.go"), ("field merge", "unjson/codec.go merge")],
  ["NewTypeEncoder", "NewTypeDecoder", "Cache.Encoder/Decoder", "DefaultOptions"])
p("C22", "Custom marshalers and unmarshalers are called wherever the type appears",
  "A type implementing json.Marshaler, encoding.TextMarshaler or njson.Appender (or the decoding counterparts), on the value or on the pointer, is encoded and decoded through its own methods at top level, in struct fields, behind pointers, in slices, arrays, map values, interfaces and, for text methods, as map keys, with the same outcome as encoding/json gives for the equivalent json methods. Text results are escaped, text inputs unescaped, nil pointers encode as null and are allocated before decoding, and errors of the methods are returned.",
  ["programs", "inputs"], "a library of types with value and pointer receivers for each interface, in every container position, with random payloads including quotes, backslashes and invalid sequences, and methods that fail on some payloads",
  "Two tests use one custom type each, at top level only.",
  ["unjson/encode.go", "unjson/decode.go", "node.go"],
  [("interface detection", "unjson/encode.go newEncoder, newTypeEncoder; unjson/decode.go newDecoder, NewTypeDecoder"), ("adapters", "node.go WrapUnmarshalJSON, WrapUnmarshalText")],
  ["unjson.Marshal", "unjson.Unmarshal"])
p("C23", "Line streams deliver every value in order under any chunking",
  "Writing any sequence of values with LineEncoder gives exactly one valid JSON line per value, and reading such a stream with LineDecoder gives the same values in order and then io.EOF, whatever the sizes in which the reader delivers the bytes, whatever the line lengths, with LF or CRLF endings and with or without a final newline. Lines holding invalid JSON or trailing garbage give an error without affecting the values decoded from other lines, and reader and writer errors are reported.",
  ["inputs", "fault_sequences"], "sequences of 0-30 values of mixed sizes including lines over the reader's buffer size, adversarial reader chunkings, injected reader and writer failures, typed decoders and encoders",
  "No test covers the stream types.",
  ["unjson/stream.go"],
  [("line assembly", "unjson/stream.go (LineDecoder).Decode"), ("buffer reuse", "unjson/stream.go (LineEncoder).Encode")],
  ["LineEncoder.Encode", "LineDecoder.Decode"])
p("C24", "Package-level functions and caches are safe for concurrent use",
  "Any number of goroutines may call unjson's package functions, use a shared Cache, Encoder or Decoder, use the document pools, and read one parsed document at the same time: there is no data race and every call returns what it returns when called alone. This holds in particular for the first uses of a type, when caches are being filled.",
  ["schedules", "programs"], "randomly generated concurrent programs (2-8 goroutines, mixed operations over shared and private objects and fresh types) run under the race detector and compared with their sequential results",
  "The test suite runs nothing concurrently.",
  ["unjson/cache.go", "document.go", "node.go"],
  [("locked caches", "unjson/cache.go Cache.Decoder, Cache.Encoder"), ("sync.Pool use", "document.go Pool; node.go bufferpool")],
  ["race detector reports", "results per goroutine"])
p("C25", "Node adapters hand over exactly the node's JSON or text",
  "WrapUnmarshalJSON calls the json.Unmarshaler once with valid JSON equal to the node's own serialisation, WrapUnmarshalText calls the encoding.TextUnmarshaler once with the decoded text of a string node and refuses all other types, and PrintJSON writes exactly the AppendJSON output in order. Errors of the callee or writer are returned, nested use from inside a callee is allowed, and no call sees bytes of another call.",
  ["inputs", "histories"], "random nodes of every type and size, callees that fail, keep copies, or call the adapters again on other nodes, writers that fail, sequences of such calls sharing the internal buffers",
  "Tests call each adapter on a few literals without nesting.",
  ["node.go"],
  [("pooled buffers", "node.go bufferpool, PrintJSON, WrapUnmarshalJSON, WrapUnmarshalText")],
  ["Node.WrapUnmarshalJSON", "Node.WrapUnmarshalText", "PrintJSON"])
p("C26", "Appending functions only ever append",
  "Node.AppendJSON, Document.AppendJSON, unjson.AppendJSON, Encoder.Encode, strjson.AppendEscaped, strjson.AppendUnescaped and numjson.AppendFloat return the destination's existing bytes followed by exactly what they produce for an empty destination. They never change bytes already in the destination, whatever its length and spare capacity.",
  ["inputs"], "random values for each function and destinations of random content, length and spare capacity (none, one short, exact, ample)",
  "Tests pass nil or an empty buffer nearly always.",
  ["document.go", "node.go", "unjson/encode.go", "strjson/escape.go", "strjson/unescape.go", "numjson/format.go"],
  [("buffer growth", "strjson/escape.go AppendEscaped; strjson/unescape.go AppendUnescaped"), ("append chains", "document.go appendJSON; unjson/encode.go")],
  ["returned slices"])
p("C27", "Generated AppendJSON methods encode like encoding/json",
  "For every struct type in the njson code generator's supported domain, the generated AppendJSON compiles and, for every value, appends valid JSON denoting the same members and values as encoding/json gives for that type and tags (members in any order, nil slices and maps as empty). Omitempty fields are left out exactly when they are empty.",
  ["programs", "inputs"], "random struct types (basic kinds, named types, pointers, slices, string-keyed maps, nested and embedded structs, tags, omitempty) in random packages, generated by the CLI, compiled and run on random values",
  "Generator tests cover three types and are not part of the reliable suite.",
  ["internal/generator/append.go", "internal/generator/generator.go", "internal/generator/options.go", "cmd/njson/njson.go"],
  [("code emission", "internal/generator/append.go"), ("field selection", "internal/generator/options.go parseField")],
  ["compiled output of cmd/njson"])
p("C28", "Generated UnmarshalNodeJSON methods decode like encoding/json",
  "For every struct type in the code generator's supported domain, the generated UnmarshalNodeJSON compiles and stores for every document of that type the same value encoding/json stores, ignoring unknown members, allocating pointers and maps, and accepting null. A value of the wrong JSON type or an integer that does not fit is refused with an error rather than stored wrongly.",
  ["programs", "inputs"], "the same random packages as C27 with random type-directed and mismatched documents, fresh and reused targets",
  "Generator tests cover three types and are not part of the reliable suite.",
  ["internal/generator/unmarshal.go", "internal/generator/generator.go", "internal/generator/options.go", "cmd/njson/njson.go"],
  [("code emission", "internal/generator/unmarshal.go")],
  ["compiled output of cmd/njson"])
p("C29", "The generator honours its options and is deterministic",
  "The CLI generates methods exactly for the struct types selected by name or pattern, with only the methods asked for, using the configured tag key, field-name case, omitempty, only-tagged, only-exported and match options to choose and name the members and the tags' raw option to leave a string's bytes as they are, and prints them, or with -w writes them to the package's file in the named directory. A selected type with a member it cannot encode, an invalid pattern or flag, a package that is missing or does not parse, or an output that cannot be written makes it fail, and a failure before the output is written leaves no code behind. Running it twice on the same package gives the same code apart from the timestamp line.",
  ["configurations", "programs"], "random packages and option combinations, comparing selected types, methods and member names with a reference reading of the source, and two runs with each other",
  "No test runs the CLI or any option.",
  ["cmd/njson/njson.go", "internal/generator/options.go", "internal/generator/generator.go"],
  [("option handling", "cmd/njson/njson.go main; internal/generator/options.go"), ("output ordering", "internal/generator/append.go StructAppender; generator.go Header")],
  ["CLI output"])
p("C30", "Type masks list and name exactly their member types",
  "For every Type value, Types returns exactly the single types contained in the mask, each once, and their union is the mask; IsValue holds exactly for masks containing a JSON value type; String names each single type distinctly and any mask by its members. Error texts of type mismatches name the actual type and every wanted type.",
  ["inputs"], "all 256 values of the type mask and all pairs of actual type and wanted mask obtainable through the API",
  "Tests check the seven single types.",
  ["types.go", "error.go"],
  [("mask decomposition", "types.go (Type).Types, (Type).String")],
  ["Type.Types", "Type.String", "Node.TypeError"])
p("C31", "The test helpers accept correct implementations and reject wrong ones",
  "njsontest.Unmarshal and njsontest.AppendJSON pass for a type exactly when its method decodes the expected JSON into an equal value, or produces exactly the expected JSON, or fails with the expected error, and report a test failure otherwise. The Method, JSON, Value and Error options change the checked method, data, target and expected error as documented, in every combination.",
  ["configurations", "inputs"], "random values, expected data, error expectations and deliberately correct and faulty implementations of the checked methods",
  "The helpers have no tests of their own.",
  ["njsontest/t.go", "njsontest/option.go"],
  [("result checks", "njsontest/t.go AppendJSON, Unmarshal, checkError, checkMethod"), ("options", "njsontest/option.go")],
  ["outcome of the returned test function"])
p("C32", "Byte map tables equal their defining predicates",
  "The bytemaper tool emits, for every class name and custom character set, a compilable table whose 256 entries equal the defining predicate or mapping, and the tables compiled into njson, strjson and numjson agree with JSON's own definitions of space, digit, number end, hex digit and escape for all 256 byte values as far as the public API can observe them.",
  ["inputs", "configurations"], "all 256 bytes for every built-in class, and random custom sets, prefixes and package names; for compiled-in tables every byte in every position class through the public API",
  "Tests check the in-package tables against themselves for a few bytes, and the tool is not tested.",
  ["internal/bytemaper/bytemaper.go", "bytemaps.go", "strjson/bytemaps.go", "numjson/bytemaps.go"],
  [("table generation", "internal/bytemaper/bytemaper.go main"), ("generated tables", "bytemaps.go; strjson/bytemaps.go")],
  ["generated source", "Document.Parse, strjson.Escaped, strjson.Unescaped per byte"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
