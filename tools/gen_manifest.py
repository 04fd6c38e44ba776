#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "property-based testing against a reference model"
NOTES = {
    "C01": ("property-based testing of whole tokenizers, invariants of the encoding",
            "random configurations of all supported components and texts; the position of padding and template tokens is derived from the configuration, ids from vocabulary and added tokens"),
    "C02": (MODEL + " that carries source ranges",
            "compared with a reference pipeline in which every character carries the range of original characters it came from; cases in which the library's tokens differ are left to the other checks"),
    "C03": (MODEL, "compared with greedy longest match over characters"),
    "C04": (MODEL, "compared with the quadratic definition of BPE (lowest rank, leftmost)"),
    "C05": ("stateful property-based testing, differential against a pristine process",
            "histories over 1-3 live tokenizers; each judged call is repeated by a fresh tokenizer in a process forked before anything was used, so that process-wide state shows too"),
    "C06": (MODEL, "compared with the Unicode algorithm written out from the character data ICU serves"),
    "C07": (MODEL, "compared with the four steps written out; unassigned characters, surrogates and one disputed CJK range excluded"),
    "C08": (MODEL, "compared with literal definitions"),
    "C09": (MODEL, "compared with literal definitions; regular expressions are generated as trees and matched by the harness's own matcher"),
    "C10": (MODEL + ", round trip", "byte alphabet and GPT-2 pattern written out by hand; decoding compared with the bytes of the text"),
    "C11": (MODEL, "compared with a brute-force search for the leftmost-longest occurrences"),
    "C12": ("stateful property-based testing against a model of the id assignment", "histories of add_tokens calls"),
    "C13": (MODEL, "windows computed by definition, both directions"),
    "C14": (MODEL, "lengths and filler computed by definition"),
    "C15": (MODEL, "templates expanded by definition"),
    "C16": (MODEL, "offset trimming by definition; two corner cases on which implementations differ excluded"),
    "C17": ("metamorphic property-based testing", "a Sequence against its own members applied one after another, flattened and nested"),
    "C18": (MODEL, "decoders by definition"),
    "C19": (MODEL, "lookup and skipping by definition, with the library's own decoder on the looked-up tokens"),
    "C20": ("round-trip property-based testing", "decode(encode(text)) against the text, or its normalized words"),
    "C21": ("differential property-based testing", "encode against the library's own stages composed by the harness, and against the reference pipeline"),
    "C22": ("metamorphic property-based testing", "one configuration spelled in several ways; vocabulary and merges against the JSON value; file against string"),
    "C23": ("fuzzing of configurations against a verdict oracle", "mutated configurations; must-reject verdicts from a strict JSON reader and a table of field types; sanitizers watch the rest"),
    "C24": ("fuzzing under sanitizers", "address and undefined-behaviour sanitizers, 20 s of CPU and 3 GB per case"),
    "C25": (MODEL + ", round trip", "an independent UTF-8 codec; all code points and malformed sequences by class"),
    "C26": ("property-based testing of concurrent calls under the thread sanitizer, differential against sequential calls",
            "2-4 threads with objects of their own, random pauses; schedules are sampled, but the sanitizer reports an unordered pair of accesses in the library's own code whichever way it went; accesses inside ICU are not watched"),
    "C27": ("differential property-based testing in a Java virtual machine",
            "the binding compiled for the JDK here (OpenJDK 17, -Xcheck:jni) against the C++ library in the driver; not run on Android's own runtime"),
    "C28": ("stateful property-based testing, invariant of the bytes in use",
            "the address sanitizer's allocator counts; growth that stops (tables, caches filled once) is not judged, nor is the amount in use"),
    "C29": ("differential property-based testing",
            "constructor-built against configuration-built components; what both do wrong alike is for the other checks"),
    "C30": ("property-based testing with injected allocation failures, differential against a twin that meets none",
            "operator new as the library and ICU call it through C++; ICU's malloc and operators new that may return null do not fail"),
}
ASSUME = ("Exploration only: no violation among the generated cases, counted in the evidence file; "
          "trusts the harness's reference model, the generators' reach and the ICU character data. ")
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    tech, note = NOTES[p["id"]]
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": tech, "level": "exploration", "level_note": ASSUME + note + "."})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": []}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
