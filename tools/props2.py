prop("C10", "YAML block documents decode to the document they denote",
 "Every YAML text in the supported subset (block mappings and sequences at any nesting, indented consistently, compact \"- key:\" and \"- -\" items and sequences level with their key included; plain scalars, on the line of their key or dash, below it, or text continued over several deeper-indented lines (joined by single spaces), comments, blank lines, anchors, aliases and merge keys) decodes without error into the document it denotes: same structure and order, plain scalars as strings, decimal numbers, true/false or null (also ~ or nothing) by their spelling, aliases as independent copies, merge keys filling only keys the mapping does not set itself. LF and CRLF line ends and a missing final newline make no difference.",
 ["inputs"], "all block-style documents x indentation widths x blank lines / comments x line ends",
 NOASSERT, ["yamlparse.go"], [("the line-driven node stack", "yamlparse.go")], [("fParsingValues", "open nodes and their indentation", "yamlparse.go")], ["NewValueFromYaml", "LoadFromYaml"])
prop("C11", "Any YAML input ends cleanly and leaves no trace in later parses",
 "For every byte string the YAML readers return, without panicking, hanging or exhausting stack or memory (aliases that would expand to millions of values are refused), a document or an error, and the outcome for a text never depends on which texts (valid or malformed) were parsed before it in the process.",
 ["inputs", "histories"], "all byte strings x all preceding parse histories", NOASSERT, ["yamlparse.go"],
 [("pooled parser reset", "yamlparse.go newyamParser/freeyamlParser")], [("yaml parser pool", "recycled parsers", "yamlparse.go")], ["NewValueFromYaml", "LoadFromYaml"])
prop("C12", "Loading into an existing value equals decoding afresh",
 "Loading JSON, MsgPack, BSON or YAML into a value, whatever type, content or cache mode it had and however often it was loaded before, leaves it in exactly the state a fresh decode of the same bytes gives, with nothing of the former content visible. A failed load is reported and leaves a value that can be read, encoded and loaded again.",
 ["inputs", "histories"], "all prior states x formats x sequences of successful and failing loads", NOASSERT,
 ["dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go"], [("LoadFrom*", "dxvalue.go"), ("parse*2V / parse*2Value twins of each parser", "jsonparse.go, msgpackparse.go, bson_parse.go")], (), ["LoadFromJson", "LoadFromMsgPack", "LoadFromBson", "LoadFromYaml"])
prop("C13", "A document survives any chain of format conversions",
 "For every document of types that JSON, MsgPack and BSON all represent, any sequence of encode-in-one-format and decode-again steps through these formats, in any order and cache or sharing mode, gives back the same document, with no step depending on which format it came from.",
 ["inputs", "histories"], "all documents x all chains of formats", NOASSERT + " TestDxValueConverter converts one document one way.",
 ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "dxvalue.go"], [("codecs over one value type", "jsonparse.go, msgpackparse.go, bson_parse.go")], (), ["ToJson", "ToMsgPack", "ToBson", "NewValueFrom*"])
prop("C14", "Containers behave as an ordered map and a list under any edits",
 "Under every sequence of set, insert, append, remove, extract, force-path, clear and reset operations with any keys and indexes, an object behaves as a map ordered by first insertion and an array as a list (writes past the end append), every read route shows the same content, and an operation changes only the addressed node.",
 ["histories"], "all operation sequences on documents built by setters or decoded from any format", NOASSERT,
 ["dxvalue.go"], [("SetKey*/SetIndex*/InsertValue/Remove*/ExtractValue/ForcePath", "dxvalue.go")], [("fobject.strkvs / farr", "members in order", "dxvalue.go")], ["Count", "Items", "Visit", "ValueByName", "ValueByIndex", "KeyNameByIndex", "ToJson"])
prop("C15", "Typed reads convert consistently and honour defaults",
 "Every typed read (by value, key, index or path) of a present node returns that node's value converted by one fixed rule per type pair (numeric strings parse, booleans are 0/1, date-times as numbers are their Delphi day number and numbers as date-times the day they number, numbers print exactly), identically on every route, and a missing key, index or path, or a path through a scalar, returns the caller's default. Reads never panic, whatever the node types.",
 ["inputs"], "all documents x all paths (existing and not) x all accessors", NOASSERT, ["dxvalue.go"],
 [("Int/Double/Float/Bool/String/Duration and the As*, *ByName, *ByPath, *ByIndex families", "dxvalue.go")], (), ["AsInt", "IntByPath", "IntByIndex", "StringByPath", "DoubleByPath", "BoolByPath", "DurationByPath", "ValueByPath"])
prop("C16", "Clone and CopyFrom give equal, fully independent documents",
 "A clone (cached or not) or copy of any document equals the original in every type, value and extension, and afterwards no edit of either one, including in-place edits of nested values and of binaries, or freeing a cached original, is ever visible in the other.",
 ["inputs", "histories"], "all documents x all later edit sequences on either side", NOASSERT, ["dxvalue.go", "cache.go"],
 [("clone / CopyFrom / AddFrom", "dxvalue.go")], (), ["Clone", "CopyFrom", "AddFrom"])
prop("C17", "Equal is exactly structural equality",
 "Equal returns true for two values precisely when they denote the same document (same keys in the same order, equal elements, strings byte-equal, numbers of any kind equal by value, binaries equal by content and extension type), whatever construction, decoding or earlier contents either has; it is symmetric, panics on no pair including nil, and changes neither side.",
 ["inputs"], "all pairs of documents, in particular pairs differing in one place", NOASSERT, ["dxvalue.go"], [("Equal", "dxvalue.go")], (), ["Equal"])
prop("C18", "MergeWith computes the documented union and nothing else",
 "Merging leaves the source unchanged and gives, for objects, every key of both: absent keys are added as independent copies; on a conflict the callback decides (called once per conflicting key with its full slash-joined path), replace taking the source's value and normal recursing into two objects, appending to an array those elements of the source's array that equal none of the old ones, and pairing anything else as an array of old and new. Top-level arrays merge by the same union; every key of the source is processed whatever conflicts came before.",
 ["inputs"], "all pairs of documents x all callback decisions", NOASSERT + " TestDxValue_MergeWith prints one merge.", ["dxvalue.go"], [("MergeWith / mergeObject", "dxvalue.go")], (), ["MergeWith"])
prop("C19", "Recycled cache memory never shows through",
 "Across every history of creating, filling, clearing, reloading and freeing cached and uncached values, each live value keeps showing exactly what its own operations produced: a new value starts empty, and no freed or cleared value's content, type or extension ever appears in another live value.",
 ["histories"], "all interleavings of allocations, loads, edits, clears and frees over several live documents", NOASSERT, ["cache.go", "dxvalue.go"],
 [("getValue / Reset / FreeValue", "cache.go, dxvalue.go")], [("ValueCachePool", "recycled value slabs", "cache.go")], ["NewCacheValue", "FreeValue", "Clear"])
prop("C20", "Independent documents can be used from many goroutines at once",
 "Goroutines that each work on their own documents (decoding, building, encoding, cloning, merging, converting and freeing, cached or not) get exactly the results they would get alone, with no data race, under every schedule.",
 ["schedules", "histories"], "all schedules of concurrent workers on disjoint documents", NOASSERT + " All tests are single-threaded.", ["cache.go", "yamlparse.go", "reflect_parse.go", "jsonparse.go"],
 [("sync.Pool of caches and parsers, shared read-only constants", "cache.go, yamlparse.go, jsonparse.go")], [("ValueCachePool, yaml parser pool, valueTrue/False/Null/NAN/INF", "process-wide state", "cache.go, yamlparse.go, jsonparse.go")], ["whole API"])
prop("C21", "Without sharing, documents and caller buffers are independent",
 "A document decoded with sharing off never changes when the input buffer is later overwritten, and setting a binary with cloning never aliases the caller's slice; encoding never changes the document, and appending to or overwriting any returned encoding never changes it either. Decoding never writes to the input, shared or not.",
 ["inputs", "histories"], "all documents x formats x later buffer writes", NOASSERT, ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "bin_value.go"],
 [("sharebinary / valueClone parameters", "jsonparse.go, msgpackparse.go, bson_parse.go, bin_value.go")], (), ["NewValueFrom*", "SetBinary", "ToJson/ToMsgPack/ToBson"])
prop("C22", "Go values convert to the document they describe",
 "Setting a value, key or index from any Go value built of booleans, all integer and float kinds, strings, byte slices, times, pointers, slices, arrays, string-keyed maps, interfaces, documents and structs of exported fields (unsigned integers within the int64 range) gives the document that value describes: every field by its name in order and every element present, nil pointers and interfaces as null, nil slices and maps as empty ones, types with their own EncodeToDxValue by it. The result replaces whatever was there, leaves the container's other members alone, never aliases the caller's byte slices, and nothing panics.",
 ["inputs"], "all Go values of those types, generated through reflection, x the entry point used", NOASSERT, ["reflect_parse.go", "struct_type.go"],
 [("SetValue/SetKeyvalue/SetIndexvalue and the reflect walkers", "reflect_parse.go")], (), ["NewValueFrom", "SetValue", "SetKeyvalue", "SetIndexvalue"])
prop("C23", "Documents convert back to the Go values they came from",
 "Decoding a document into a Go variable of matching type (structs, slices, arrays, string-keyed maps, scalars, times, byte slices, pointers, empty interfaces, nested to any depth) fills it with exactly the described value, so converting any such Go value to a document and back returns an equal value, and never panics whatever the destination held before. Struct fields the document does not mention stay as they were, null makes pointers, interfaces, slices and maps nil, a fixed-size array drops surplus elements and zeroes missing ones, and byte slices in the result are the caller's own. With case ignored a member fills the field of exactly its name if there is one; a type with a registered conversion is decoded by the function registered for it last. Package-level Marshal and Unmarshal of anything but a document do exactly what encoding/json does.",
 ["inputs"], "all Go types built from those constructors x all values x prior destination contents", NOASSERT, ["reflect_parse.go", "struct_type.go"],
 [("ToStdValue and decode* walkers", "reflect_parse.go")], (), ["ToStdValue"])
prop("C24", "Date-times keep their instant through every route and time zone",
 "A time of the years 1 to 9999 set on a value reads back as the same instant to the millisecond, through typed getters, clones, BSON, MsgPack and escaped JSON dates, to the second through plain JSON text, and prints its local wall-clock time, in every local time zone (instants whose wall-clock reading is ambiguous or skipped excepted).",
 ["inputs", "configurations"], "all instants x local time zones x routes", NOASSERT + " They run in one zone on a handful of instants.", ["datetime.go", "dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go"],
 [("Delphi date conversion", "datetime.go")], [("simpleV of VT_DateTime", "days since 1899-12-30 in local time", "dxvalue.go")], ["SetTime", "GoTime", "String", "ToJson", "ToMsgPack", "ToBson"])
prop("C25", "The shared true/false/null/nan/inf constants can never be altered",
 "No sequence of API calls on any value, including loads, setters, merges, copies, binary and time setters applied to values obtained as true, false, null, nan or inf, changes what any other occurrence of these constants in this or another document is, reads as or encodes to.",
 ["histories"], "all operation sequences on documents containing the constants", NOASSERT, ["dxvalue.go", "jsonparse.go"],
 [("ReadOnly guards", "dxvalue.go")], [("valueTrue/valueFalse/valueNull/valueNAN/valueINF", "process-wide constants", "jsonparse.go")], ["NewValue(VT_True...)", "ToJson"])
prop("C26", "Saving to a file and loading it back restores the content",
 "Writing any document to a JSON file (with or without BOM, formatted or not), or any binary to a file, replaces whatever the file held with exactly the encoded content, and reading it back gives the same document or bytes; failures are reported as errors and leave no panic.",
 ["inputs", "fault_sequences"], "all documents and binaries x prior file contents x missing or unwritable paths", NOASSERT + " The file tests use Windows paths that do not exist here.", ["jsonparse.go", "bin_value.go", "iofiles.go", "msgpackparse.go", "yamlparse.go", "bson_parse.go"],
 [("Value2File, NewValueFrom*File, SaveBinaryToFile, SetBinaryFromFile, ReadFile", "jsonparse.go, bin_value.go, iofiles.go")], (), ["Value2File", "NewValueFromJsonFile", "SaveBinaryToFile", "SetBinaryFromFile"])
prop("C27", "Reading a document never changes it",
 "No sequence of read-only calls (typed getters, lookups, counting, visiting, comparing, encoding, printing, converting to Go values), in any order, changes what any later read or comparison of that document returns or which document any later encoding of it denotes.",
 ["histories"], "all sequences of read-only calls on documents decoded from any format", NOASSERT, ["dxvalue.go", "jsonparse.go"],
 [("lazy unescaping is the only mutation on read", "dxvalue.go String, UnEscapestrs")], [("VT_RawString, keysUnescaped", "lazily decoded state", "dxvalue.go")], ["all getters", "ToJson", "ToMsgPack", "Equal"])
prop("C28", "Case-insensitive mode affects exactly key lookup",
 "With the case-insensitivity switch on, finding, overwriting, removing and extracting a key behave as if keys were compared ignoring case, the first matching member being the one addressed, while stored spellings, order and encodings stay as written; with it off keys are compared exactly.",
 ["configurations", "histories"], "all key sets x operations x switch settings", NOASSERT, ["dxvalue.go"], [("IgnoreCase branches of VObject lookups", "dxvalue.go")], [("IgnoreCase", "process-wide switch", "dxvalue.go")], ["ValueByName", "SetKey", "RemoveKey", "ExtractValue"])
prop("C29", "A child without a value is carried like null and never breaks anything",
 "In documents where members or elements hold no value at all (nil, as stored by SetKeyValue or SetIndexValue with what a fruitless lookup returned), at any level, such a child keeps its place in counts, order, keys and visits; lookups find nothing there and typed reads give their default; JSON, MsgPack and BSON encode it as null; clones, copies and additions keep it, comparison tells it from any other value, merging treats it as an ordinary leaf, converting to Go values does what null would do, and setting over it, forcing a path through it, removing or extracting it work as for any child. Nothing panics.",
 ["inputs", "histories"], "all documents x which children have no value x sequences of operations", NOASSERT + " None holds a nil child.", ["dxvalue.go", "jsonparse.go", "msgpack_value.go", "bson_parse.go", "reflect_parse.go"],
 [("nil checks in the encoders, clone, Equal, mergeObject, SetKeyCached/SetIndexCached, decodeValue2reflect", "dxvalue.go, jsonparse.go, msgpack_value.go, bson_parse.go, reflect_parse.go")], [("strkv.V, farr[i]", "may be nil", "dxvalue.go")], ["SetKeyValue", "SetIndexValue", "ToJson", "ToMsgPack", "ToBson", "Clone", "Equal", "MergeWith", "ToStdValue"])
