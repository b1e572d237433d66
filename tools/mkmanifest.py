#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vm import props

TRACE = "TLA+ specification (Reflect/Oper/Doc) checked with TLC; traces of the real library validated event by event against it"
MC = "TLA+ specification model checked with TLC over all short histories of random alphabets, every transition replayed on the library; recorded traces validated against the specification"
NOTE = ("Bounded: holds for the histories and Go types generated from the seed (counts in the evidence), each judged by TLC against the specification. "
        "Trusts the specification, TLC, the Go toolchain, jsonschema-go and the recording harness; ")
D = {
 "C01": (MC, "model invariant Frame plus comparison of all operations after every call."),
 "C02": ("TLA+ specification of methods and paths (PathT), exhaustively model checked over all strings up to a length and all strings of several alphabets replayed on the library", "bounded by string length and alphabets."),
 "C03": (MC, "acceptance of every call compared with the specification."),
 "C04": (MC, "document after every rejected call compared with the one before; one known finding (in-place changes of a failing setup callback)."),
 "C05": (TRACE, "parameters and closing of locations compared after every registration."),
 "C06": (TRACE, "request bodies compared after every registration."),
 "C07": (TRACE, "responses compared after every registration."),
 "C08": (MC, "references and component names of every document; model invariants RefsResolve, NamesValid."),
 "C09": (MC, "component schemas of every document; model invariant CompsStable; one known finding (form fields overwriting a JSON component)."),
 "C10": (TRACE + "; both versions also compared with each other through the conversion the specification defines", "same histories on both versions."),
 "C11": ("TLA+ specification of all kinds of objects and of what encoders may leave out (Codec); TLC derives objects of every kind, checks that canonical objects stay what they are, prints them for replay on the decoders and encoders; random deep documents validated against it; round trips of reflected documents", "unknown members of 3.1 objects other than extensions are not part of it."),
 "C12": ("TLA+ specification of documents (Codec); random documents in varying YAML notations and as JSON, both read, written and read back by the library, validated against it by TLC; YAML round trips of reflected documents", "strings and keys are sampled from a list of ambiguous ones; one known finding (keys <<)."),
 "C13": ("TLA+ table of object kinds (Codec), from which TLC derives well-formed objects and single faults and checks that every fault is rejected by the specification; verdicts of the real decoders on them and on random deep documents with faults validated against it", "nulls are judged only where they stand for absent members; two known findings (boolean schemas, link parameters)."),
 "C14": ("TLA+ specification of the schema conversion (SchemaConv) and of what schemas mean (Valid); TLC checks on every schema built in a few steps that meaning is kept and prints it for replay on the library; random deep schemas converted by the library validated against it", "schemas with one non-null type per type list."),
 "C15": (TRACE, "callbacks of walkers with failing positions compared with the specification."),
 "C16": (MC, "security schemes and requirements compared after every call."),
 "C17": ("TLA+ specification of independent processes (MCConc): TLC explores and prints all interleavings of short programs, which are replayed step by step on the library; schedules that switch inside of steps, free-running goroutines and concurrent readers under the race detector; every concurrent trace validated by TLC as an interleaving of the traces the processes show alone (TraceConc)", "free-running schedules are those the Go scheduler produces; switches inside of steps happen at schema hooks."),
 "C18": ("TLA+ specification of setters, item setters and ensuring getters over records (Builder); TLC explores all short sequences of calls over the methods the library has and checks frame and last-write properties, every sequence replayed on the library from empty and populated values; random long sequences; every recorded call validated against it", "which member a method is about is taken from its name."),
 "C19": (MC, "webhooks and operations compared after every call."),
 "C20": (TRACE, "getters of contexts and metadata of all operations compared after every call."),
 "C21": (TRACE, "operations made by the deprecated functions compared with the specification of the current ones."),
 "C22": (TRACE, "calls of a schema hook compared with what the specification says is processed."),
 "C23": (TRACE + ", every history replayed several times", "repetition in one process with randomised map iteration."),
 "C24": (MC, "exports and lookups compared with the specification's closure of references."),
}
WHY = {"C17": "engine not built yet", "C18": "engine not built yet"}
checks = []
for p in sorted(D):
    if p in props.CHECKS:
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                       "technique": D[p][0], "level": "model_checking", "level_note": NOTE + D[p][1]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": WHY[p]} for p in sorted(D) if p not in props.CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
