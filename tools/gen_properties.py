#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
B = "binschema/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Encoded bytes follow the documented wire format exactly",
  "For every legal schema and every value conforming to it, a completed encoding has written exactly the byte sequence that the published format document (FORMAT.txt) assigns to that value under that schema: no byte more, less, different or reordered. This holds whether the encoding was made with the encoder's individual calls or through the dynamic value type.",
  ["inputs"], "all legal schemas (any nesting, sizes, names, recursion) x all conforming values",
  "The repository's tests only check that a handful of values survive a round trip; no test compares bytes with the format, so any self-consistent change of format passes.",
  [B+"encoder.rs", B+"var_len.rs", B+"value.rs", B+"coder/coder.rs", "FORMAT.txt"],
  [("encode_* / begin_* methods", B+"encoder.rs"), ("write_var_len_uint, write_var_len_sint, write_ord", B+"var_len.rs"), ("Value::encode_to", B+"value.rs")],
  ["bytes passed to the Write"])

p("C02", "Dynamic values round-trip and consume exactly one message",
  "Decoding the bytes of a completed encoding under the same schema as a dynamic value yields a value equal to the original, floats bit for bit, and leaves the coder finished. It consumes exactly the bytes of that message, so messages concatenated on one stream, followed by anything, are read back one after another.",
  ["inputs", "histories"], "all legal schemas x conforming values x sequences of messages on one stream with arbitrary trailing bytes",
  "No test touches the dynamic value type at all; typed tests use four values, one message per buffer, and never check what is left in the buffer.",
  [B+"value.rs", B+"decoder.rs", B+"encoder.rs", B+"var_len.rs"],
  [("Value::decode_from / encode_to", B+"value.rs"), ("decode_* / begin_* methods", B+"decoder.rs")],
  ["decoded value", "reader position", "CoderState::is_finished_or_err"])

p("C03", "Scalars are minimal, lossless and range-checked",
  "Every value of every scalar type survives encoding and decoding unchanged; integers of 32 bits and more and chars take the minimal number of variable-length bytes, all other scalars their fixed width. Decoding a scalar from a number outside the type's range, a number that is not a Unicode scalar value (char), a bool byte other than 0 or 1, or a variable-length integer of more than 19 bytes fails as malformed data.",
  ["inputs"], "all values of the 14 scalar types; all byte strings read as a scalar",
  "Unit tests cover integers of magnitude up to 2048 only, no type boundary, no float, char or malformed encoding.",
  [B+"var_len.rs", B+"encoder.rs", B+"decoder.rs"],
  [("read_/write_var_len_uint/sint", B+"var_len.rs"), ("try_from range checks", B+"decoder.rs")],
  ["bytes written", "decoded scalar", "Error::kind"])

p("C04", "Decoding arbitrary bytes agrees with the format or fails cleanly",
  "For every legal schema and every byte string, decoding either succeeds with precisely the value the format assigns to the bytes, consuming precisely the bytes of that value, or returns an error; it never panics or aborts (nesting and element counts within machine limits). The error is malformed-data when the bytes break the format (bad option, bool, enum index, char, UTF-8 or integer) and I/O when they end early, and the coder then does not report finished.",
  ["inputs"], "all legal schemas x all byte strings: valid, mutated, adversarial, random",
  "No test decodes anything but the output of the encoder.",
  [B+"decoder.rs", B+"value.rs", B+"var_len.rs", B+"error.rs", B+"coder/coder.rs"],
  [("malformed-data checks", B+"decoder.rs"), ("read_ord range check, read_var_len_* length check", B+"var_len.rs")],
  ["Result of decoding", "Error::kind", "reader position", "is_finished"])

p("C05", "An I/O failure at any byte is reported and never looks complete",
  "If the writer or reader fails (error or end of data) at any byte offset of a message, the operation in progress returns an error of the I/O kind from which the original I/O error can be retrieved, and the coder does not report finished. What was written up to then is a prefix of the full message, and no strict prefix of a valid message ever decodes to completion.",
  ["fault_sequences", "crash_points", "inputs"], "all (schema, value) x every byte offset of the message x kinds of I/O failure, for encoding and decoding, dynamic and serde",
  "No test injects an I/O failure or a truncated message.",
  [B+"encoder.rs", B+"decoder.rs", B+"error.rs", B+"var_len.rs"],
  [("mark_broken on write/read failure", B+"encoder.rs, decoder.rs"), ("From<io::Error> for Error", B+"error.rs")],
  ["Error::kind / inner / source", "bytes written before the failure", "is_finished"])

p("C06", "Exactly the conforming values can be encoded to completion",
  "A dynamic value is encoded to completion under a legal schema if and only if it conforms to that schema: scalar type, sequence length where fixed, tuple and struct arity, field names and order, variant index and name, at every level. For a non-conforming value encoding returns a schema-non-conformance or API-usage error, without panicking, and the coder does not report finished.",
  ["inputs"], "all legal schemas x all dynamic values, conforming, nearly conforming and unrelated",
  "No test encodes a value that does not fit its schema.",
  [B+"value.rs", B+"coder/coder.rs", B+"encoder.rs"],
  [("validate_need_eq / validate_need_matches and the counting of elements", B+"coder/coder.rs")],
  ["Result of Value::encode_to", "Error::kind", "is_finished_or_err"])

p("C07", "Encoder call histories obey the schema, and rejected calls change nothing",
  "For every sequence of encoder calls, each call is accepted exactly when it is a legal next step for the schema, and the coder reports finished exactly when one complete value has been coded. A call rejected as schema-non-conformance or API misuse writes nothing and leaves the coder unchanged, so the history can continue as if it had not been made. At every point the query for the schema due next returns the resolved schema (never a recurse), or an error when none is due.",
  ["histories", "inputs"], "all legal schemas x all finite sequences of the encoder's public calls with arbitrary arguments, valid and invalid interleaved",
  "Tests only make the correct calls, in the correct order, through serde.",
  [B+"coder/coder.rs", B+"encoder.rs"],
  [("state machine of stack frames", B+"coder/coder.rs"), ("begin_enum all-or-nothing via cancel_enum", B+"encoder.rs")],
  ["Result and Error::kind of each call", "bytes written by each call", "is_finished", "need()"],
  [("frame stack", "the chain of values being coded and how far each is", B+"coder/coder.rs: StackFrame, ApiState")])

p("C08", "Decoder call histories obey schema and data; rejected calls change nothing",
  "For every message and every sequence of decoder calls, each call is accepted exactly when it is a legal next step for the schema, returns what the message holds there and consumes exactly those bytes; the coder reports finished exactly when one complete value has been decoded. A call rejected as schema-non-conformance or API misuse reads nothing and leaves the coder unchanged, so the history can continue as if it had not been made. At every point the query for the schema due next returns the resolved schema (never a recurse), or an error when none is due.",
  ["histories", "inputs"], "all legal schemas x all messages x all finite sequences of the decoder's public calls with arbitrary arguments",
  "Tests only make the correct calls, in the correct order, through serde.",
  [B+"coder/coder.rs", B+"decoder.rs"],
  [("state machine of stack frames", B+"coder/coder.rs"), ("decode_* / begin_*", B+"decoder.rs")],
  ["Result and Error::kind of each call", "reader position after each call", "is_finished", "need()"],
  [("frame stack", "the chain of values being coded and how far each is", B+"coder/coder.rs: StackFrame, ApiState")])

p("C09", "Fatal errors are sticky",
  "Once any coding call has failed with an I/O, malformed-data, platform-limits or illegal-schema error, every later coding call on the same coder is rejected as API misuse, without panicking and without reading or writing a byte, and the coder never reports finished. This holds wherever in the value the failure happened, also in its last byte.",
  ["histories", "fault_sequences"], "all coding histories ending in a fatal failure of each kind at each place x all following calls",
  "No test makes a call after an error.",
  [B+"coder/coder.rs", B+"decoder.rs", B+"encoder.rs", B+"error.rs"],
  [("broken flag, mark_broken", B+"coder/coder.rs"), ("documented contract of ErrorKind", B+"error.rs")],
  ["Error::kind of calls after the failure", "is_finished_or_err", "reader/writer position"],
  [("broken", "the coder had an irrecoverable error", B+"coder/coder.rs: CoderState.broken")])

p("C10", "Recursion refers to the schema tree, and illegal recursion is an error",
  "A recurse schema behaves in every respect, in encoding and decoding alike, as the schema that many levels above it in the schema tree, however deeply and through whatever other recursions it was reached while coding. A recurse of level zero, or beyond the root of the schema, gives an illegal-schema error when coding reaches it, never a panic or another interpretation.",
  ["inputs", "histories"], "all schemas with recursion to any level (legal and illegal), all values unrolling them to any depth",
  "Tests have two recursive schemas whose only recursion target is the root, unrolled three levels.",
  [B+"coder/coder.rs", B+"schema.rs", "FORMAT.txt"],
  [("push_need", B+"coder/coder.rs")],
  ["bytes written", "decoded value", "Error::kind"])

p("C11", "Supported standard types round-trip under their own schema",
  "For every value of every standard type the library declares a schema for (scalars, usize/isize, strings, unit, options, the sequence, set and map collections, arrays, tuples of 1 to 11, ranges, bounds, boxes, and their nestings, empty ones included), serializing it under that declared schema succeeds and completes. Deserializing the bytes as that type gives an equal value, consumes exactly the bytes and leaves the coder finished. The declared schema is the natural one for the type and the bytes are those of the format.",
  ["inputs", "programs"], "all values of all supported standard types and their nestings",
  "Tests contain two maps, one array and a few tuples, none empty, and no set, range, bound, deque, list, heap, option or usize.",
  [B+"known_schema.rs", B+"serde/ser.rs", B+"serde/de.rs"],
  [("KnownSchema impls for std types", B+"known_schema.rs"), ("Serializer/Deserializer impls", B+"serde/ser.rs, de.rs")],
  ["T::schema()", "bytes", "deserialized value", "is_finished_or_err"])

p("C12", "Derived schemas mirror the type and make its values round-trip",
  "For every non-generic struct or enum built from supported field types (unit, empty, newtype, tuple and named shapes, raw identifiers, self- and mutually recursive types through any supported container), the derived schema mirrors the definition: field and variant names and order, newtypes transparent, zero-field tuples and unit shapes as unit. Each reference to an enclosing type becomes a recurse of exactly the right level, or the level given by an explicit attribute. Every value of the type serializes under that schema and deserializes to an equal value.",
  ["programs", "inputs"], "all type definitions in the supported grammar x all their values",
  "Tests derive seven types, one of them recursive and only directly inside an enum.",
  ["binschema_derive/src/lib.rs", B+"known_schema.rs", B+"serde/ser.rs", B+"serde/de.rs"],
  [("derive_known_schema", "binschema_derive/src/lib.rs"), ("RecurseStack layers", B+"known_schema.rs")],
  ["T::schema()", "bytes", "deserialized value"])

p("C13", "The serde serializer accepts what fits the schema and writes its format",
  "Driving the serde serializer with data of any serde shape produces, when the shape fits the schema under the documented mapping (unit-like as unit, newtypes transparent, tuple-like as tuple or sequence, map as sequence of pairs, skipped struct field as none), exactly the bytes the format assigns to the corresponding value, and finishes. Any other shape (wrong kind, length, name, variant, order, missing or surplus parts, undeclared length where one is needed) gives an error or leaves the coder unfinished, and never panics.",
  ["inputs", "histories"], "all legal schemas x all trees of serde data-model calls, fitting, nearly fitting and unrelated",
  "Tests only serialize types under their own schema.",
  [B+"serde/ser.rs", B+"serde/mod.rs", B+"encoder.rs", B+"coder/coder.rs"],
  [("Serializer for &mut Encoder, SeqLikeSerializer, skip_field", B+"serde/ser.rs")],
  ["Result of serialize", "bytes written", "is_finished"])

p("C14", "The serde deserializer presents exactly the message, however requested",
  "Any valid message can be consumed through serde at every nesting by matching typed requests, by self-describing requests, or by ignoring it, mixed freely, empty containers included; the visitor is presented exactly the data of the message, exactly its bytes are consumed and the coder is finished. Typed requests that do not fit the schema (wrong kind, tuple length, field names, variant names) give an error or leave the coder unfinished; nothing panics.",
  ["inputs", "histories"], "all legal schemas x conforming values x all ways to request them through serde",
  "Tests only deserialize derived types; self-describing and ignored requests and mismatches are never exercised.",
  [B+"serde/de.rs", B+"decoder.rs"],
  [("Deserializer for &mut Decoder, SeqDecoder, MapDecoder, StructDecoder, EnumDecoder", B+"serde/de.rs")],
  ["data presented to the visitor", "reader position", "is_finished_or_err"])

p("C15", "Schemas are themselves transportable data",
  "Every schema, recursive ones included, serializes under the library's schema of schemas to the bytes the format document prescribes and deserializes to an equal schema, which then codes every value byte for byte like the original. The library's schema of schemas is the documented one, describes itself, and reads as the same data through the dynamic value type.",
  ["inputs"], "all schemas of any shape, size, names, levels and lengths; values coded under the transported copy",
  "One test round-trips one schema, the meta-schema itself, and compares no bytes.",
  [B+"known_schema.rs", B+"schema.rs", B+"serde/ser.rs", B+"serde/de.rs", "FORMAT.txt"],
  [("impl KnownSchema for Schema", B+"known_schema.rs"), ("derived Serialize/Deserialize of Schema", B+"schema.rs")],
  ["bytes of the encoded schema", "decoded schema", "Schema::schema()"])

p("C16", "Reused allocations and buffers never affect results",
  "What coding produces does not depend on the history of the coder allocation it was given (fresh, cloned, or recovered after successful, failed or abandoned coding, of any depth) nor on the previous content of the string or byte buffer decoded into. Reuse in any order neither leaks, double-frees nor corrupts memory, and a recovered allocation does save the coder's own heap allocation on the next use of the same depth.",
  ["histories"], "all sequences of coding sessions passing one allocation and one buffer along, ended by success, error or abandonment",
  "Tests reuse an allocation once, from a successful encode to a decode of the same value.",
  [B+"coder/coder_alloc.rs", B+"coder/coder.rs", B+"decoder.rs"],
  [("CoderStateAlloc::from_stack / into_stack / Drop / Clone (unsafe)", B+"coder/coder_alloc.rs"), ("decode_str_into, decode_bytes_into", B+"decoder.rs")],
  ["bytes, values and errors of each session", "heap allocations and frees"],
  [("ptr, capacity", "the recycled frame stack", B+"coder/coder_alloc.rs")])

p("C17", "Debug logging is passive",
  "Attaching a debug log to a coder, whatever its writer does (accepts, is slow to accept, or fails on any write), changes nothing else: the same calls return the same results and errors, write the same bytes, decode the same values and finish alike. Logging never panics.",
  ["histories", "fault_sequences"], "all schemas x all call histories, valid and invalid, x log writers failing at any write",
  "No test attaches a debug log.",
  [B+"coder/coder.rs"],
  [("dbg_log!, dbg_log_push!, dbg_log_pop!", B+"coder/coder.rs")],
  ["results, bytes and state with and without a log"])

p("C18", "I/O granularity does not matter and nothing is read ahead",
  "Coding gives the same results whatever sizes the writer or reader transfers per call, and whether or not calls are interrupted (the retryable I/O condition), also inside long strings and byte strings. The decoder takes no byte beyond the message from the reader.",
  ["schedules", "inputs"], "all (schema, value) x all ways a reader or writer may split transfers or report interruption",
  "Tests use in-memory buffers only, which transfer everything at once.",
  [B+"decoder.rs", B+"encoder.rs", B+"var_len.rs"],
  [("read_exact / write_all use", B+"decoder.rs, encoder.rs, var_len.rs")],
  ["bytes taken from the reader or given to the writer", "decoded value"])

p("C19", "Pretty-printing shows the whole schema faithfully",
  "Pretty-printing any schema, legal or not, terminates without panicking and shows every node once, in order, indented by its depth, with its kind, fixed length or variable length, element, field and variant positions, names, and recursion levels, so the schema can be read back from the text. Each recursion that reaches beyond the root is marked so, and each other one of level at least one (drawn with single-byte names) is joined by an unbroken line to the line of the schema it refers to.",
  ["inputs"], "all schemas including illegal recursion levels and arbitrary names",
  "Tests print schemas but look at nothing.",
  [B+"schema.rs"],
  [("inner_pretty_fmt", B+"schema.rs")],
  ["the returned text"])

p("C20", "Schema notation denotes exactly the schema it spells",
  "Every expression in the schema-construction macro notation, in any nesting, with or without trailing commas, with embedded computed schemas, lengths and levels, yields exactly the schema data structure the notation spells: kinds, fixed or variable length, order, names and recursion level.",
  ["programs"], "all expressions of the notation's grammar",
  "Tests only use the macro indirectly, where a wrong but self-consistent schema still round-trips.",
  [B+"schema.rs"],
  [("schema! macro", B+"schema.rs")],
  ["the Schema value the expression evaluates to"])

p("C21", "Hostile lengths cannot exhaust memory",
  "When a string, byte string or sequence announces more content than the message actually holds (up to the largest announceable length), or a fixed sequence length in the schema does, decoding fails with an ordinary I/O or platform-limits error. The memory used until then stays in proportion to the bytes actually supplied plus a constant, and nothing panics or aborts.",
  ["inputs"], "all schemas whose repeated elements occupy at least one byte x all messages announcing excessive lengths",
  "No test decodes a malformed message; the code carried a TODO about malicious payloads.",
  [B+"decoder.rs", B+"value.rs", B+"serde/de.rs"],
  [("length handling in decode_str_into, decode_bytes_into", B+"decoder.rs"), ("element vector pre-allocation in Value::decode_from", B+"value.rs")],
  ["peak heap use of the decoding thread", "Error::kind"])

p("C22", "Recursion tracking finds the nearest enclosing type",
  "For hand-written schema implementations, the stack of enclosing layers answers, for any sequence of type and anonymous layers, how many layers lie between the innermost layer and the nearest one of a queried type, or that there is none; the recurse schema it offers has that number plus one as level. A type pushed as transparent has no layer of its own: it is found at the layer added next. Two different types are never confused, adding layers never alters the stacks already handed out, and the text of a stack names its types innermost first.",
  ["histories", "inputs"], "all stacks of type, transparent and anonymous layers x all queried types",
  "Tests use the stack only through one derived recursive type.",
  [B+"known_schema.rs"],
  [("RecurseStack::with_type_layer, with_transparent_type_layer, with_none_layer, find_type, parent_recurse", B+"known_schema.rs")],
  ["find_type / parent_recurse results"])

p("C23", "The application's own errors pass through serde coding unchanged",
  "When data being serialized, or a visitor or seed being fed, raises an error of its own at any point of a value, the serde operation fails with an error of kind Other that holds exactly the application's message. Exactly the part before that point has been written or taken, the coder does not report finished unless the whole value was already coded, and the coder is still usable: individual calls can complete the message from exactly that point.",
  ["inputs","fault_sequences"], "all (schema, value) x every point at which the data or the visitor may fail x all messages",
  "No test has an implementation that fails.",
  [B+"serde/ser.rs", B+"serde/de.rs", B+"error.rs"],
  [("ser::Error / de::Error custom", B+"serde/ser.rs, serde/de.rs"), ("error propagation in compound serializers and accessors", B+"serde/ser.rs, serde/de.rs")],
  ["Error::kind, Error::inner, Display", "bytes written or taken", "the coder's further behaviour"])

p("C24", "Errors and coder states describe themselves truthfully",
  "Every error's text begins with its kind's text, contains its cause's text, and its source, inner error and taken-out inner error are that same cause; a reader's or writer's I/O error is found inside whole, with its own kind and payload. The text of a coder state, in every state a history can lead to, tells whether the coder is broken and lists the open schema nodes, innermost first, numbered from 0, each with its kind of schema and how far it has been coded (sequence length and next index, next element or field, chosen variant). Every rejected call's error, and the error for not being finished, contains the list of the nodes open at that time. Rendering any of this never panics.",
  ["histories","fault_sequences"], "all schemas x all call histories and failures x all errors made of any message",
  "Tests never look at an error.",
  [B+"error.rs", B+"coder/coder.rs", B+"schema.rs"],
  [("Error, ErrorKind Display", B+"error.rs"), ("Debug for CoderState", B+"coder/coder.rs"), ("non_recursive_display_str", B+"schema.rs")],
  ["Display and Debug texts", "Error::source, inner, into_inner"])

p("C25", "The debug log is a well-nested trace of what was coded",
  "With a debug log whose writer works, every accepted call adds its lines and nothing else: a value's begin (some option, sequence, tuple, struct, enum) opens a line, its end closes one, scalars, strings, byte strings, units, none, field names, variant ordinals and variant names are single lines, in coding order; a line tells the kind of value, and the length, name or ordinal where there is one; each line is indented by exactly the number of values begun and not finished, so at the end of a message everything opened is closed. A rejected call leaves nothing open. The log depends on the message alone: encoding and decoding it, by dynamic values, individual calls or serde, log the same text, also when the writer takes the text in pieces.",
  ["histories","inputs"], "all schemas x all call histories x all messages x all ways of coding them",
  "No test attaches a debug log.",
  [B+"coder/coder.rs"],
  [("dbg_log!, dbg_log_push!, dbg_log_pop!", B+"coder/coder.rs")],
  ["text of the debug log after every call"])

p("C26", "The kind of an error tells its cause and what became of the coder",
  "Whatever a message is coded by - dynamic values, individual calls, serde with any data, requests or Rust types - an error's kind names its cause: an I/O error only if the stream reported one or ended early; malformed data and platform limits only when decoding bytes that are no message of the schema; illegal schema only if the schema is; schema non-conformance and API usage only if the data, requests or calls do not suit the schema, never when they do - schema non-conformance if another schema would have taken the value, honest serde data or call after the same calls, API usage if no schema would; the kind 'other' only for an error the application's own Serialize, Deserialize or visitor code raised, never for one of the library's. And it tells what became of the coder: after an I/O, malformed-data, platform-limit or illegal-schema error it is not finished and accepts no coding call any more; after any other it is as usable as its position says: either finished or some call is accepted, it can be driven on to the end of the message, and then what was written is exactly one message of the schema, or exactly the message was read.",
  ["inputs","histories"], "all schemas x all values, serde data, requests, call lists, bytes x stream failures",
  "Tests code matching data over working streams; no test looks at the kind of an error or uses a coder after one.",
  [B+"error.rs", B+"serde/ser.rs", B+"serde/de.rs", B+"coder/coder.rs", B+"value.rs"],
  [("ErrorKind", B+"error.rs"), ("Serializer for &mut Encoder", B+"serde/ser.rs"), ("Deserializer for &mut Decoder", B+"serde/de.rs")],
  ["error kind", "calls accepted after the error", "bytes written or taken when carried on to the end"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
