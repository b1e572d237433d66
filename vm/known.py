"""Known findings: histories on which the library breaks a property.

known_findings.json lists them with the mismatches they show.  A history that
shows exactly these prints a KNOWN-FINDING line; any other mismatch of it is a
violation.  Entries of kind "fixed" suppress nothing.
"""
import json
import os

from . import orch
from .typesgen import Types, basic, field, named, ptr, slc, struct

FILE = os.path.join(orch.VERIF, "known_findings.json")


def types():
    t = Types(None)
    t.add("Leaf", struct([field("A", basic("string"), {"json": "a"}), field("B", basic("int"), {"json": "b", "minimum": "1"})]))
    t.add("Body", struct([field("L", named("Leaf"), {"json": "l"})]))
    t.add("Form", struct([field("L", named("Leaf"), {"formData": "l"})]))
    t.value("req:Body", ptr(named("Body")))
    t.value("req:Form", ptr(named("Form")))
    t.value("resp:List", slc(named("Leaf")))
    return t


def load():
    return json.load(open(FILE))["findings"]


def shape(b):
    """What identifies a mismatch."""
    return [b["v"], b["n"], b["ev"], sorted([d["aspect"], norm(d["at"]), norm(d["expected"]), norm(d["observed"])] for d in b["diffs"])]


def norm(t):
    """TLC prints members in no particular order."""
    i = min([k for k in (t.find("{"), t.find("[")) if k >= 0] or [0])
    try:
        return t[:i] + json.dumps(json.loads(t[i:]), sort_keys=True)
    except ValueError:
        return t


def engine(f):
    return f.get("mode", "doc"), f.get("module", "TraceDoc")


def observe(c, mine):
    bad = []
    w = orch.Work(types())
    try:
        for mode, module in sorted({engine(f) for f in mine}):
            b, cnt = orch.conform(w, mode, module, c.prop, [f["scenario"] for f in mine if engine(f) == (mode, module)], tag="known", chunks=1)
            c.count(cnt)
            bad += b
    finally:
        w.close()
    return bad


def run(c):
    mine = [f for f in load() if f["property"] == c.prop and f["kind"] == "known"]
    if not mine:
        return
    bad = observe(c, mine)
    for f in mine:
        got = [b for b in bad if b["sc"] == f["scenario"]["sc"]]
        want = f["mismatches"]
        new = [b for b in got if shape(b) not in want]
        if new:
            c.found(new, {"stage": "known", "known": True, "mode": engine(f)[0], "module": engine(f)[1]})
        elif got:
            c.known.append(f["what"])
