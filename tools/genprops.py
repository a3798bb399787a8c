#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

NOASSERT = "The existing tests parse or build a few fixed documents and print them; they contain no assertions, so only a panic on those very documents fails them."

prop("C01", "JSON decoding yields exactly the document the text denotes",
 "Every RFC 8259 text in valid UTF-8 with distinct keys per object decodes without error into the document it denotes: same structure, key order and key lookups, fully unescaped strings and keys, integers in the int64 range exact, every other number as the nearest double, true/false/null as themselves. This holds for any whitespace, escape or number spelling, cached or not, shared input buffer or not, and the input bytes are never modified. (Strings of the form Date(ms) or /Date(ms)/ denote date-times instead.)",
 ["inputs"], "all JSON texts (nested up to 10000 levels, sizes the machine can hold) x cache mode x buffer sharing x order in which the result is read",
 NOASSERT + " No finite sample covers number spellings, escapes, surrogate pairs and lengths.",
 ["jsonparse.go", "json_escape.go", "dxvalue.go"],
 [("parseJsonObj/parseJsonArray/parseJsonString/parseJsonNum", "jsonparse.go"), ("lazy unescaping of keys and RawString values", "dxvalue.go UnEscapestrs, String")],
 [("keysUnescaped", "whether an object's keys are still in JSON-escaped form", "dxvalue.go VObject"), ("VT_RawString", "string still in JSON-escaped form", "dxvalue.go")],
 ["NewValueFromJson", "ValueByName", "Items", "Visit", "String/Int/Double"])

prop("C02", "JSON encoding is valid JSON denoting exactly the document",
 "For every document of objects, arrays, valid UTF-8 strings, int64s, finite floats and doubles, booleans and nulls, the compact and the formatted JSON output (and the String() form of containers) under both escaping styles is valid RFC 8259 JSON that any conforming parser reads as exactly that document, with numbers exact, keys in order and nothing lost; of a document built by the setters, the escape-all style gives pure ASCII. Bytes already present in the destination buffer are kept in front of it. Documents that also hold binaries still give valid JSON with every other part intact. The no-escape style gives the same for documents in which no string or key needs escaping.",
 ["inputs", "configurations"], "all documents x how they were built (setters, decoded from JSON with lazily unescaped strings) x compact/formatted x escape style x destination prefix",
 NOASSERT, ["jsonparse.go", "json_escape.go", "dxvalue.go"],
 [("Value2Json / formatValue", "jsonparse.go"), ("escapeJsonStr", "json_escape.go")],
 [("VT_RawString/keysUnescaped", "already escaped text is copied as is", "dxvalue.go")],
 ["ToJson", "Value2Json", "Value2FormatJson", "String"])

prop("C03", "Malformed JSON is rejected cleanly, valid JSON never",
 "For every byte string the JSON readers return, without panicking, exhausting the stack, hanging or modifying the input, either a document or a printable error and never neither or both; texts that are not JSON (beyond the reader's leniencies: raw control characters and unknown escapes inside strings, relaxed number spellings, nan/inf words) are rejected, in particular truncated documents and trailing garbage, and valid ones are accepted (nesting beyond 10000 levels may be refused). Loading into an existing value accepts exactly the same texts as creating a new one, and after a failed load the value is still usable.",
 ["inputs"], "all byte strings; sampled as token soups, mutated and truncated documents, nesting by the million, and random bytes",
 NOASSERT + " Malformed input is not tested at all.", ["jsonparse.go", "dxvalue.go"],
 [("ErrorParseJson returns in parseJson*", "jsonparse.go"), ("LoadFromJson", "dxvalue.go")], (), ["NewValueFromJson", "LoadFromJson", "error.Error()"])

prop("C04", "MsgPack encoding is conforming and denotes exactly the document",
 "For every document of all supported types (nulls, booleans, int64s, floats, doubles, strings, binaries, typed extensions, date-times to the millisecond, objects, arrays, of any length) the MsgPack output is one well-formed MsgPack object with nothing before or after it that an independent decoder reads as exactly that document, order and types included, every length, integer and timestamp in the shortest form the specification offers. Bytes already present in the destination buffer are kept in front.",
 ["inputs"], "all documents, in particular every length at which MsgPack switches representation, x construction route (incl. strings and keys lazily decoded from JSON)",
 NOASSERT, ["msgpackparse.go", "msgpack_value.go", "msgpack_codes.go"],
 [("Value2MsgPack and the write* helpers", "msgpackparse.go, msgpack_value.go")], (), ["ToMsgPack", "Value2MsgPack"])

prop("C05", "MsgPack decoding accepts every format and yields the exact document",
 "Every well-formed MsgPack object whose map keys are distinct strings and whose integers fit int64 decodes without error into exactly the document it denotes, whichever of the equivalent representations (fix, 8, 16, 32, 64 bit forms, all timestamp forms) the producer chose for each item. Cached or not, shared buffer or not, the result is the same and the input is never modified.",
 ["inputs"], "all documents (nested up to 10000 levels) x all representation choices per item x cache mode x sharing",
 NOASSERT + " They only decode what the library itself encoded, so most input formats are never seen.", ["msgpackparse.go", "msgpack_codes.go"],
 [("parseMsgPackValue and the per-code readers", "msgpackparse.go")], (), ["NewValueFromMsgPack", "LoadFromMsgPack"])

prop("C06", "Malformed or truncated MsgPack is rejected cleanly",
 "For every byte string the MsgPack readers return, without panicking, hanging, exhausting memory or the stack, or modifying the input, either a document or an error, never neither; every strict prefix of a well-formed object and every input with an invalid format code is rejected. After a failed load the value is still usable.",
 ["inputs"], "all byte strings; sampled as truncations at every position, byte mutations, oversized length headers, nesting by the million and random bytes",
 NOASSERT, ["msgpackparse.go"], [("length checks in parseMsgPack*", "msgpackparse.go")], (), ["NewValueFromMsgPack", "LoadFromMsgPack"])

prop("C07", "BSON encoding is a conforming document denoting exactly the value",
 "For every object document of nulls, booleans, numbers, strings, plain binaries, BSON-typed binaries read from BSON, date-times, objects and arrays whose keys are free of NUL, the BSON output is one well-formed BSON document with correct nested lengths and terminators that an independent decoder reads as exactly that document: order, numeric values, strings, booleans, nulls, binaries, date-times to the millisecond, nested documents and arrays of any length; binaries and timestamps read from BSON keep their BSON type. Bytes already present in the destination buffer are kept in front.",
 ["inputs"], "all object documents x construction route x destination prefix", NOASSERT, ["bson_parse.go", "bson_code.go"],
 [("writeObjBsonValue/writeArrayBsonValue/writeSimpleBsonValue", "bson_parse.go")], (), ["ToBson"])

prop("C08", "BSON decoding yields the exact document",
 "Every well-formed BSON document built of double, string, document, array, binary (any subtype), object id, boolean, UTC date-time, null, int32, timestamp, int64 and decimal128 elements decodes without error into exactly the document it denotes, negative numbers, empty documents and empty arrays included. Cached or not, shared buffer or not, the result is the same and the input is never modified.",
 ["inputs"], "all BSON documents over those element types x cache mode x sharing", NOASSERT, ["bson_parse.go", "bson_code.go"],
 [("parseBsonDocument / parseBsonElement", "bson_parse.go")], (), ["NewValueFromBson", "LoadFromBson"])

prop("C09", "Malformed or truncated BSON is rejected cleanly",
 "For every byte string the BSON readers return, without panicking, hanging, exhausting memory or the stack, or modifying the input, either a document or an error; every strict prefix of a document, every document whose length field or terminator is wrong, every array with an element named by something that is not a number and every element type with content the reader does not support is rejected (undefined, min-key and max-key, which have none, read as null). After a failed load the value is still usable.",
 ["inputs"], "all byte strings; sampled as truncations, length-field and type-byte corruptions, mutations, nesting by the million and random bytes", NOASSERT,
 ["bson_parse.go"], [("length checks in parseBson*", "bson_parse.go")], (), ["NewValueFromBson", "LoadFromBson"])

if __name__ == "__main__":
    import runpy
    here = os.path.dirname(os.path.abspath(__file__))
    ns = runpy.run_path(os.path.join(here, "props2.py"), init_globals={"prop": prop, "NOASSERT": NOASSERT})
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
