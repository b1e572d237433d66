#!/usr/bin/env python3
"""Writes /verif/known_findings.json.  Run by hand, never by a check: the
mismatches of the known histories are recorded from the current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vm import check, known, orch  # noqa
from vm.typesgen import NONE

def unit(g, t=NONE, **kw):
    u = {"g": g, "t": t, "ct": "", "fmt": "", "desc": "", "map": {}, "status": 0, "dflt": False, "ref": "", "prep": False}
    u.update(kw)
    return u

T = known.types()
val = lambda k: unit(k, T.values[k][0])
F = []
def k(prop, sc, what, v, cmds):
    F.append({"kind": "known", "property": prop, "what": what, "scenario": {"sc": sc, "v": v, "opt": {}, "cmds": cmds}})
def kcodec(prop, sc, what, item):
    F.append({"kind": "known", "property": prop, "what": what, "mode": "codec", "module": "TraceCodec", "scenario": {"sc": sc, "items": [item]}})
def fixed(prop, commit, what):
    F.append({"kind": "fixed", "property": prop, "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})

k("C04", "setup-inplace",
  "a Spec.SetupOperation callback that adds a response to an already registered operation and then fails leaves that response in the document (the callback gets a shallow copy that shares the responses map)",
  ["3", "31"],
  [{"ev": "specsetup", "m": "get", "p": "/a", "edits": [{"k": "resp", "s": "200"}]},
   {"ev": "specsetup", "m": "get", "p": "/a", "edits": [{"k": "resp", "s": "404"}, {"k": "fail"}]}])
k("C09", "form-overwrites",
  "a structure with only JSON tags nested in a form field loses the fields of its component schema (registered first from a JSON body, then reflected for the form)",
  ["3", "31"],
  [{"ev": "new", "c": "c1", "m": "post", "p": "/a"}, {"ev": "req", "c": "c1", "u": val("req:Body")}, {"ev": "add", "c": "c1"},
   {"ev": "new", "c": "c2", "m": "post", "p": "/b"}, {"ev": "req", "c": "c2", "u": val("req:Form")}, {"ev": "add", "c": "c2"}])

kcodec("C13", "bool-schema",
  "a boolean schema of OpenAPI 3.1 (valid in JSON Schema 2020-12) is not accepted: the codec keeps schemas as objects",
  {"v": "31", "kind": "MediaType", "in": {"schema": True}})
kcodec("C13", "link-params",
  "a parameter of an OpenAPI 3.1 link that is not a string (any value is allowed) is not accepted",
  {"v": "31", "kind": "Link", "in": {"operationId": "a", "parameters": {"id": 5}}})
DOC = {"openapi": "3.1.0", "info": {"title": "a", "version": "1"}, "paths": {}, "x-a": {"<<": {"b": 1}}}
kcodec("C12", "yaml-merge-key",
  "a key << below an extension is written to YAML without quotes and is taken for a merge key when read back",
  {"v": "31", "kind": "Spec", "in": DOC, "yaml": json.dumps(DOC)})

for p, h, w in [
    ("C13", "592efd2", "examples of OpenAPI 3.1 did not decode"),
    ("C13", "dda3fe4", "objects with a $ref member decoded as something else than a reference, or failed"),
    ("C13", "24c2905", "the styles matrix, label and simple were not accepted in OpenAPI 3.1"),
    ("C13", "0025df0", "paths, callbacks and components of the wrong JSON type were accepted and dropped"),
    ("C11", "f0735f8", "3.1 parameters lost allowEmptyValue and allowReserved"),
    ("C11", "07876b9", "encoding objects lost their extensions"),
    ("C11", "1278da7", "3.1 components lost their extensions"),
    ("C11", "7401a28", "3.1 links lost their server"),
    ("C11", "5181522", "3.1 path items lost their $ref"),
    ("C11", "3825a8c", "3.1 headers lost an empty schema"),
    ("C14", "98ef18d", "exclusiveMinimum/exclusiveMaximum were dropped by FromJSONSchema of 3.0 when the inclusive bound was absent"),
    ("C01", "a9b3cfb", "an operation whose path spells a placeholder pattern was not found as duplicate when its context was created"),
    ("C04", "335b0d8", "a failing Spec.SetupOperation of 3.1 left a partial operation in the document"),
    ("C15", "ffcf704", "walking default, family and referenced responses skipped the schemas or panicked"),
    ("C07", "afc468a", "3.1 responses with a contentType tag lost their content"),
    ("C07", "5279755", "response headers of one unit were attached to other units of the operation"),
    ("C24", "bdac1a4", "ToJSONSchema of 3.1 left references unresolved below several keywords"),
    ("C05", "b7f240e", "a recursive structure as query parameter made the reflector recurse without end"),
    ("C04", "869e76c", "offering an already registered context again changed the registered operation before failing"),
    ("C07", "3438a98", "a header whose schema is a reference made the reflector panic"),
    ("C11", "c55a89a", "decoded 3.0 parameters wrote their members twice and ignored later changes of the schema"),
    ("C09", "1a2c2bf", "schema traits of a type were lost when it was first used in a JSON parameter through a pointer"),
    ("C23", "e529bc1", "the order of YAML keys depended on map iteration"),
    ("C24", "9177457", "exporting a 3.1 schema dropped keywords next to a root reference and did not follow references in them"),
    ("C24", "a38df3d", "exporting a 3.1 schema left references below 2020-12 keywords ($defs, prefixItems, dependentSchemas, unevaluated*) unresolved"),
    ("C06", "d6a43ce", "a pointer to a structure that embeds a jsonschema.Struct lost its JSON request body"),
    ("C06", "e57763f", "a jsonschema.Struct with json fields had no JSON request body"),
]:
    fixed(p, h, w)

for f in F:
    if f["kind"] != "known":
        continue
    c = check.Check(f["property"], "quick", 1)
    f["mismatches"] = [known.shape(b) for b in known.observe(c, [f])]
    assert f["mismatches"], f["what"]
json.dump({"findings": F}, open(known.FILE, "w"), indent=1)
open(known.FILE, "a").write("\n")
for f in F:
    print(f.get("line") or "known: %s %s" % (f["property"], f["mismatches"]))
