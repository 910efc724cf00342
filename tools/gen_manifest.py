#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ex = "exploration"
BASE = " Assurance is that of the generated cases, in a build with assertions and overflow checks and in one without; nothing is proved. Trusted: the reference model (from FORMAT.txt), the harness, rustc."
C = {
 "C01": (ex, "property-based testing: differential against a reference encoder written from FORMAT.txt", "Generated schema/value pairs, encoded in two ways and compared byte for byte with the reference encoding."),
 "C02": (ex, "property-based testing: round trip of generated message streams with position oracle", "Streams of generated messages with arbitrary tails, decoded back one after another with one recycled allocation."),
 "C03": (ex, "property-based testing: round trip and minimality oracle, exhaustive for 8/16-bit and char", "Scalars of all types biased to length and range boundaries, exhaustive over u8, i8, u16, i16, char; corrupted scalar encodings against the reference decoder."),
 "C04": (ex, "structured fuzzing: corrupted messages, differential against a reference decoder", "Semantically corrupted, mutated and random byte strings against the reference decoder: same value and length, or the right kind of error, no panic."),
 "C05": ("fault_enumeration", "fault injection at every byte offset of generated messages", "For each generated message every byte offset (sampled beyond 300 bytes) in both directions is failed once with rotating error kinds."),
 "C06": (ex, "property-based testing: mutated values against a reference conformance predicate", "Values mutated away from conformance, through both ways of encoding, against the reference's accept/reject decision."),
 "C07": (ex, "stateful model-based testing of encoder call histories against a schema automaton", "Every call of every generated history compared with the automaton: accept/reject, bytes, finished, schema due next."),
 "C08": (ex, "stateful model-based testing of decoder call histories against a schema automaton", "Every call of every generated history compared with the automaton and the reference decoder: accept/reject, result, bytes taken, finished, schema due next."),
 "C09": (ex, "stateful fault injection: generated call histories after an injected fatal failure", "Every kind of fatal failure at generated places, then 14 or more further calls with the I/O working again."),
 "C10": (ex, "stateful model-based testing on recursive schemas plus metamorphic unfolding", "Histories, value coding and unfolding of one recursion on recursion-rich schemas, half of them with illegal levels."),
 "C11": (ex, "property-based testing: typed round trips with a schema and byte oracle per type", "About 150 concrete types; the expected schema and dynamic value of each are computed independently of the library's implementations."),
 "C12": (ex, "generated programs: random type definitions compiled with the derive, then typed round trips", "Random families of type definitions are compiled against the working tree; derived schema, bytes and round trips are compared with what the definitions say."),
 "C13": (ex, "model-based testing of the serde serializer with generated data of all serde shapes", "Generated serde data (all shapes, matching and mismatching) against a model of the documented mapping."),
 "C14": (ex, "model-based testing of the serde deserializer with generated request plans", "Generated plans mixing typed, self-describing and ignoring requests over generated messages, and wrong requests."),
 "C15": (ex, "property-based testing: round trips through the schema of schemas with a reference encoding", "Generated schemas encoded under the schema of schemas, compared with the reference, decoded and used."),
 "C16": (ex, "stateful differential testing: recycled against fresh allocations under a checking allocator", "Histories of coding with recycled, cloned and abandoned allocations compared with fresh ones; header, poison and leak checks by the harness's allocator."),
 "C17": (ex, "differential testing with and without a debug log, faults injected into the log's writer", "The same generated history with and without a debug log of every behaviour."),
 "C18": (ex, "metamorphic testing: scripted partial transfers and interruptions against whole transfers", "The same coding under scripted transfer sizes and interruptions, with exact reader position."),
 "C19": (ex, "property-based testing: printed text read back against the schema tree", "Generated schemas printed, the text read back line by line, recursion lines traced."),
 "C20": (ex, "generated programs: random macro expressions compiled and compared with the schema they spell", "Random expressions of the notation compiled against the working tree and compared with the schema built without the macro."),
 "C21": (ex, "structured fuzzing of announced lengths under an allocator that meters peak memory", "Hostile lengths in every place a length can be, memory metered per thread."),
 "C22": (ex, "stateful model-based testing of the recursion stack against a list model", "Generated sequences of layers and queries against a plain list."),
 "C23": (ex, "property-based testing with failures injected into generated data and visitors, resumed against the automaton", "Generated values whose serialization or visitor fails at a drawn point; the rest is then coded by individual calls."),
 "C24": (ex, "stateful model-based testing of diagnostic texts against the schema automaton", "The text of the coder state after every call of generated histories, and every error met, against the automaton's stack; injected I/O errors taken apart."),
 "C25": (ex, "stateful model-based testing of the debug log against the schema automaton; differential between ways of coding", "The log's text parsed after every call of generated histories, against the automaton's stack; the logs of one message coded in different ways compared."),
 "C26": (ex, "property-based testing and stateful probing: error kinds against injected causes, erring coders driven on to the end of the message", "Whole codings that go wrong in generated ways; the kind compared with the causes there were, the coder probed and driven on by whatever it accepts, the outcome judged by the reference decoder."),
}
import sys
claimed = sys.argv[1:] or sorted(C)
checks = []
for pid in claimed:
    lv, tech, note = C[pid]
    checks.append({"property": pid, "quick_cmd": "VERIF_TIER=quick python3 check.py " + pid,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": tech, "level": lv, "level_note": note + BASE})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
