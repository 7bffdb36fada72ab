#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property with a check."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing"
T = {
 "C01": ("generated values x entry points, round-trip oracle", "exploration", "about 200 types, both byte orders, five readers; equality judged on canonical encodings of an independent model"),
 "C02": ("generated values against an independent reference encoder/decoder", "exploration", "the reference is written from the README's format table"),
 "C03": ("random type definitions with generated reference codec", "exploration", "definitions drawn from a grammar of the derive macros; a new batch for every seed"),
 "C04": ("differential over writing entry points with scripted sinks and guard pages", "exploration", "buffers end at unmapped pages; sinks split and interrupt at random"),
 "C05": ("differential over reading entry points on valid, mutated and random bytes", "exploration", "scripted streams split at random; sizes across the 8 KiB stream buffer"),
 "C06": ("structured fuzzing of byte strings against a reference decoder in crash-isolated processes", "exploration", "guard pages, counting allocator, process isolation; acceptance must equal the model's"),
 "C07": ("truncation of generated encodings at every or random points", "exploration", "error must be classified end of input through every entry point"),
 "C08": ("metamorphic: appended bytes and concatenated values change nothing", "exploration", "stream positions observed after each read"),
 "C09": ("fault injection into scripted streams at every byte position of generated values", "fault_enumeration", "positions enumerated per value, values sampled; also missing, unreadable and odd files"),
 "C10": ("fault injection into scripted sinks at every byte position, plus full and limited files", "fault_enumeration", "positions enumerated per value, values sampled; /dev/full and RLIMIT_FSIZE for files"),
 "C11": ("model-based sequences of Reader operations against a byte cursor", "exploration", "five library readers and a user-defined one"),
 "C12": ("model-based sequences of Writer operations against concatenated reference encodings", "exploration", "vectors, fixed buffers, streams, files and a user-defined writer"),
 "C13": ("exhaustive boundaries and generated integers/bytes against a reference varint codec", "exploration", "all lengths, all first bytes, both byte orders, all entry points"),
 "C14": ("generated length-attributed definitions with boundary counts against a reference codec", "exploration", "every prefix width at its limits, expressions that agree and disagree"),
 "C15": ("generated enum definitions, tags enumerated or sampled, against a computed tag table", "exploration", "all 1-byte tags exhaustively, wider ones sampled around the declared values"),
 "C16": ("generated definitions and boundary truncations against a reference codec", "exploration", "every truncation point of each value"),
 "C17": ("metamorphic: bulk coding against element-wise coding of generated layouts", "exploration", "random struct layouts, alignments, lengths, both byte orders"),
 "C18": ("generated inputs at all alignments; borrowed results located by address", "exploration", "pointer arithmetic against the input buffer, guard pages behind it"),
 "C19": ("generated failing/panicking element positions with a drop ledger", "exploration", "each constructed element has an identity that must be dropped once"),
 "C20": ("exhaustive small domains and generated representations against independent predicates", "exploration", "all chars, one- and two-byte values and strings; wider domains sampled at their edges"),
 "C21": ("generated collection histories and repeated keys against reference lists", "exploration", "colliding hashers, custom orders, shrinking/growing histories"),
 "C22": ("generated third-party values and hostile bytes against reference codecs", "exploration", "every optional integration of the crate, both indexmap majors"),
 "C23": ("differential between differently configured builds on generated requests", "exploration", "nine builds (seven feature sets, debug and release) and two interpreted machines (s390x big endian, i686 32 bit) answer the same requests as the reference model"),
 "C24": ("provoked errors of every kind against an independent classification", "exploration", "class, conversion and message of each"),
 "C27": ("generated bytes against the standard library's conversions", "exploration", "every helper of every type in both orders, unaligned, at the end of memory, with neighbours watched"),
 "C26": ("generated ill-formed and barely well-formed definitions against the compiler's verdict", "exploration", "an oracle on the definition's structure says what must be refused; one compilation for all"),
 "C28": ("generated element types and uses of borrowed values against the compiler's verdict", "exploration", "an oracle on layouts and lifetimes says which programs must be refused"),
 "C29": ("generated user code that contradicts itself, against poisoned memory, guard pages, validity of values and an element ledger", "exploration", "debug and release builds side by side; fresh and freed memory holds bytes that no input contains"),
 "C25": ("model-based sequences of user routines with recording contexts", "exploration", "the whole context history compared with a sequential model"),
}
T = dict(sorted(T.items()))
ready = [p for p in T if len(sys.argv) < 2 or p in sys.argv[1:]]
titles = {}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(l); titles[d["id"]] = d["title"]
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}", "technique": f"{PBT}: {T[p][0]}", "level": T[p][1], "level_note": T[p][2]} for p in ready],
 "not_applicable": [{"property": p, "reason": "the check is not written yet"} for p in T if p not in ready],
}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
