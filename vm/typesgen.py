"""Random Go types, as Go source and as data for the specification."""
import json
import re


# Type expressions, the same records module Reflect describes.
def basic(b): return {"k": "basic", "b": b}
def ptr(e): return {"k": "ptr", "e": e}
def slc(e): return {"k": "slice", "e": e}
def mp(e): return {"k": "map", "e": e}
def arr(n, e): return {"k": "slice", "e": e, "len": str(n)}
def kmp(key, e): return {"k": "map", "e": e, "key": key}
def named(n): return {"k": "named", "n": n}
def struct(f): return {"k": "struct", "f": f}
NONE = {"k": "none"}
FILE = {"k": "file"}
FILEH = {"k": "fileh"}

GO_BASIC = {"time": "time.Time", "date": "jsonschema.Date", "bytes": "[]byte", "any": "interface{}",
            "raw": "json.RawMessage"}


def S(s): return ["s", s]
def N(n): return ["n", str(n)]
def B(b): return ["b", bool(b)]
def A(q): return ["a", list(q)]
def O(m): return ["o", dict(m)]


def tagj(v):
    if v is None:
        return ["z"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, (int, float)):
        return ["n", canon(v)]
    if isinstance(v, list):
        return ["a", [tagj(x) for x in v]]
    return ["o", {k: tagj(x) for k, x in v.items()}]


def canon(v):
    if isinstance(v, int):
        return str(v)
    if v == int(v) and abs(v) < 1e15:
        return str(int(v))
    return repr(v)


def field(n, t, tags=None, emb=False, vals=None):
    return {"n": n, "t": t, "tags": dict(tags or {}), "emb": emb, "vals": dict(vals or {})}


def to_camel(s):
    """Default naming of jsonschema-go."""
    s = re.sub(r"([a-zA-Z])(\d+)([a-zA-Z]?)", r"\1 \2 \3", s).strip(" ")
    n, cap = "", True
    for v in s:
        if "A" <= v <= "Z" or "0" <= v <= "9" or v in "[]":
            n += v
        elif "a" <= v <= "z":
            n += v.upper() if cap else v
        cap = v in "_ -.[]\u00b7"
    return n


def go_tag(tags):
    return "`" + " ".join("%s:%s" % (k, json.dumps(v)) for k, v in tags.items()) + "`" if tags else ""


class Types:
    """A table of named types and of values to use in content units."""

    def __init__(self, rng):
        self.rng = rng
        self.pwt, self.inl, self.ren = False, False, ""
        self.named = {}      # name -> def, raw, tr
        self.expr = {}       # name -> Go expression, when it is not the name
        self.decl = {}       # name -> Go declaration, when it is special
        self.values = {}     # key -> (type, Go expression of a value)
        self.meta = {}       # key -> what generators need to know

    # -- declaring -----------------------------------------------------------
    def add(self, name, d, tr=None, expr=None, goname=None, decl=None):
        raw = to_camel((goname or name)[0].upper() + (goname or name)[1:])
        self.named[name] = {"def": d, "raw": raw, "tr": dict(tr or {})}
        if expr:
            self.expr[name] = expr
        if decl is not None:
            self.decl[name] = decl
        return named(name)

    def value(self, key, t, expr=None, **meta):
        self.values[key] = (t, expr or self.zero(t))
        self.meta[key] = meta
        return key

    # -- Go source -----------------------------------------------------------
    def go(self, t):
        k = t["k"]
        if k == "basic":
            return GO_BASIC.get(t["b"], t["b"])
        if k == "ptr":
            return "*" + self.go(t["e"])
        if k == "slice":
            return "[%s]" % t.get("len", "") + self.go(t["e"])
        if k == "map":
            return "map[%s]" % t.get("key", "string") + self.go(t["e"])
        if k == "named":
            return self.expr.get(t["n"], t["n"])
        if k == "file":
            return "multipart.File"
        if k == "fileh":
            return "multipart.FileHeader"
        if k == "struct":
            return "struct {\n" + "".join(self.go_field(f) for f in t["f"]) + "}"
        raise ValueError(k)

    def go_field(self, f):
        name = "" if f["emb"] else f["n"] + " "
        return "\t" + name + self.go(f["t"]) + " " + go_tag(f["tags"]) + "\n"

    def zero(self, t):
        if t["k"] == "none":
            return "nil"
        d = t["e"] if t["k"] == "ptr" else t
        if d["k"] == "named" and "virt" in self.named[d["n"]]["tr"]:
            return ("&" if t["k"] == "ptr" else "") + self.literal(d["n"])
        if t["k"] == "ptr":
            x = self.virtual_fields(t["e"])
            return "func() " + self.go(t) + " { var v " + self.go(t["e"]) + x + "; return &v }()" if x else "new(" + self.go(t["e"]) + ")"
        return "func() " + self.go(t) + " { var v " + self.go(t) + self.virtual_fields(t) + "; return v }()"

    def is_virtual(self, t):
        return t["k"] == "named" and "virt" in self.named[t["n"]]["tr"]

    def virtual_fields(self, t):
        """Assignments to the fields made up at run time."""
        d = self.named[t["n"]]["def"] if t["k"] == "named" else t
        if d["k"] != "struct":
            return ""
        return "".join("; v.%s = %s" % ("Struct" if f["emb"] else f["n"], self.literal(f["t"]["n"])) for f in d["f"] if self.is_virtual(f["t"]))

    def literal(self, n):
        """A structure made up at run time."""
        d = self.named[n]
        fs = ", ".join("{Name: %s, Value: %s, Tag: %s}" % (json.dumps(f["n"]), self.zero(f["t"]), go_tag(f["tags"]) or '""') for f in d["def"]["f"])
        more = "".join(", %s: func() *string { s := %s; return &s }()" % (k, json.dumps(d["tr"][x]))
                       for k, x in (("Title", "title"), ("Description", "desc")) if x in d["tr"])
        return "jsonschema.Struct{DefName: %s, Fields: []jsonschema.Field{%s}%s}" % (json.dumps(n), fs, more)

    def source(self):
        out = ["package main", "", "import (", '\t"encoding/json"', '\t"mime/multipart"', '\t"time"', "",
               '\tjsonschema "github.com/swaggest/jsonschema-go"', ")", "",
               "var (", "\t_ json.RawMessage", "\t_ multipart.File", "\t_ time.Time", "\t_ jsonschema.Date", ")", "", "const (", "\twithoutTags = " + str(self.pwt).lower(), "\tinPlace = " + str(self.inl).lower(),
               "\tnamePrefix = " + json.dumps(self.ren), ")", ""]
        for n, d in self.named.items():
            if n in self.decl:
                out.append(self.decl[n])
            else:
                t = d["def"]
                out.append("type %s %s\n" % (n, self.go(t)))
            if n in self.expr:
                continue
            tr = d["tr"]
            if "around" in tr:
                continue
            if "desc" in tr:
                out.append("func (*%s) Description() string { return %s }\n" % (n, json.dumps(tr["desc"])))
            if "title" in tr:
                out.append("func (*%s) Title() string { return %s }\n" % (n, json.dumps(tr["title"])))
            if "enum" in tr:
                vs = ", ".join(json.dumps(v[1]) if v[0] == "s" else v[1] for v in tr["enum"][1])
                out.append("func (%s) Enum() []interface{} { return []interface{}{%s} }\n" % (n, vs))
            for kw, fn in (("oneOf", "OneOf"), ("anyOf", "AnyOf"), ("allOf", "AllOf")):
                if kw in tr:
                    out.append("func (%s) JSONSchema%s() []interface{} { return []interface{}{%s} }\n" % (
                        n, fn, ", ".join(self.zero(t) for t in tr[kw])))
            if "not" in tr:
                out.append("func (%s) JSONSchemaNot() interface{} { return %s }\n" % (n, self.zero(tr["not"])))
            if "inline" in tr:
                out.append("func (%s) InlineJSONSchema() {}\n" % n)
            if "forceBody" in tr:
                out.append("func (%s) ForceRequestBody() {}\n" % n)
            if "forceJSON" in tr:
                out.append("func (%s) ForceJSONRequestBody() {}\n" % n)
        out.append("var values = map[string]func() interface{}{")
        for k, (t, e) in self.values.items():
            out.append("\t%s: func() interface{} { return %s }," % (json.dumps(k), e))
        out.append("}")
        return "\n".join(out) + "\n"

    def table(self):
        return json.dumps({n: d for n, d in self.named.items()}) + "\n" + json.dumps({"pwt": self.pwt, "inl": self.inl, "ren": self.ren})


# ---------------------------------------------------------------------------
# Random types.

SCALARS = ["string", "string", "string", "int", "int64", "int32", "uint", "uint8", "float64", "float32", "bool", "bool",
           "int8", "int16", "uint16", "uint32", "uint64"]
WORDS = ["alpha", "beta", "gamma", "delta", "omega", "kappa", "sigma", "theta"]
FIELDS = ["Foo", "Bar", "Baz", "Qux", "Quux", "Corge", "Grault", "Garply", "Waldo", "Fred", "Plugh", "Xyzzy", "Thud"]


class Gen(Types):
    def __init__(self, rng, nj=10, nreq=20, nresp=14, strict=False, dense=1, pwt=False, inl=False, ren=""):
        super().__init__(rng)
        # pwt: JSON schemas have fields without tags, too.
        self.pwt = pwt
        # inl: schemas have no components; ren: a prefix of their names.
        self.inl, self.ren = inl, ren
        # dense: how many times more likely constraint tags are.
        self.dense = dense
        # strict: only documents that decode (3.0 restricts styles by location).
        self.strict = strict
        self.jt, self.js, self.qt, self.ft, self.sc = [], [], [], [], []
        self.lt = {"header": [], "cookie": []}
        self.seq = 0
        self.reqs, self.resps = [], []
        self.fixed()
        for _ in range(nj):
            self.json_type()
        for _ in range(3):
            if not pwt:
                self.query_type()
                self.form_type()
        for tag in ("header", "cookie"):
            for _ in range(2):
                if not pwt:
                    self.loc_type(tag)
        for _ in range(nreq):
            self.req_type()
        for _ in range(nresp):
            self.resp_type()

    def name(self, base):
        self.seq += 1
        r = self.rng.random()
        a, b = self.rng.choice(WORDS).capitalize(), self.rng.choice(WORDS)
        n = "%s%s%d" % (base, a, self.seq)
        if r < 0.15:
            return n + "_" + b
        if r < 0.3:
            return n + b
        if r < 0.4:
            return n[0].lower() + n[1:]
        return n

    # -- named helper types --------------------------------------------------
    def fixed(self):
        r = self.rng
        self.sc.append(self.add("Str1", basic("string")))
        self.sc.append(self.add("Num1", basic("int")))
        self.sc.append(self.add("Flag1", basic("bool")))
        self.sc.append(self.add("Txt1", basic("text"), decl="""type Txt1 struct{ A, B int }

func (Txt1) MarshalText() ([]byte, error) { return nil, nil }

func (*Txt1) UnmarshalText([]byte) error { return nil }
"""))
        # Recursive types.
        if not self.inl:
            self.recursive()
        # Names with characters that are not allowed in component names.
        leaf = self.add("Leaf", struct([field("X", basic("int"), {"json": "x", "required": "true"})]))
        self.jt.append(leaf)
        self.add("Box[main.Leaf]", struct([field("Item", leaf, {"json": "item"}), field("More", slc(leaf), {"json": "more"})]),
                 expr="Box[Leaf]", decl="type Box[T any] struct {\n\tItem T `json:\"item\"`\n\tMore []T `json:\"more\"`\n}\n")
        self.add("Box[[]main.Leaf]", struct([field("Item", slc(leaf), {"json": "item"}), field("More", slc(slc(leaf)), {"json": "more"})]),
                 expr="Box[[]Leaf]", decl="")
        self.jt += [named("Box[main.Leaf]"), named("Box[[]main.Leaf]")]
        self.named["Box[[]main.Leaf]"]["raw"] = None  # asked from Go, see below
        del self.named["Box[[]main.Leaf]"], self.expr["Box[[]main.Leaf]"], self.decl["Box[[]main.Leaf]"]
        self.jt.pop()
        fleaf = self.add("FLeaf", struct([field("Foo", basic("string"), {"formData": "foo"})]))
        self.add("FBox[main.FLeaf]", struct([field("Item", fleaf, {"formData": "item"}), field("More", slc(fleaf), {"formData": "more"})]),
                 expr="FBox[FLeaf]", decl="type FBox[T any] struct {\n\tItem T `formData:\"item\"`\n\tMore []T `formData:\"more\"`\n}\n")
        self.ft += [fleaf, named("FBox[main.FLeaf]")]
        self.add("QBox[main.Str1]", struct([field("Foo", basic("string"), {"query": "foo"}), field("Bar", named("Str1"), {"query": "bar"})]),
                 expr="QBox[Str1]", decl="type QBox[T any] struct {\n\tFoo string `query:\"foo\"`\n\tBar T `query:\"bar\"`\n}\n")
        self.qt.append(named("QBox[main.Str1]"))
        self.add("Und_er_sc0re", struct([field("Y", basic("string"), {"json": "y"})]))
        self.jt.append(named("Und_er_sc0re"))
        # Named collections.
        self.js.append(self.add("LeafList", slc(leaf)))
        self.js.append(self.add("LeafMap", mp(leaf)))
        self.js.append(self.add("StrList", slc(basic("string"))))

    def recursive(self):
        self.add("Tree", struct([field("Val", basic("string"), {"json": "val"}),
                                 field("Kids", slc(ptr(named("Tree"))), {"json": "kids,omitempty"})]))
        self.add("Ping", struct([field("Pong", ptr(named("Pong")), {"json": "pong,omitempty"}), field("N", basic("int"), {"json": "n"})]))
        self.add("Pong", struct([field("Ping", mp(named("Ping")), {"json": "ping,omitempty"})]))
        self.jt += [named("Tree"), named("Ping"), named("Pong")]

    # -- constraint tags -----------------------------------------------------
    def constraints(self, t, nested=False):
        """Tags and parsed values that suit a field of the type."""
        r = self.rng
        tags, vals = {}, {}
        if t["k"] == "ptr":
            t = t["e"]
        if t["k"] == "named" or t["k"] == "struct":
            return tags, vals
        pick = lambda p: r.random() < 1 - (1 - p) ** self.dense
        if t["k"] == "basic":
            b = t["b"]
            if b == "string":
                if pick(.25): tags["minLength"] = str(r.randint(1, 4))
                if pick(.2): tags["maxLength"] = str(r.randint(5, 90))
                if pick(.15): tags["pattern"] = r.choice(["^[a-z]+$", "^\\d{3}$", "x|y"])
                if pick(.12): tags["format"] = r.choice(["email", "uuid", "custom-x"])
                if pick(.12): tags["enum"] = ",".join(r.sample(WORDS, r.randint(1, 3)))
                if pick(.1): vals["default"] = S(r.choice(WORDS)); tags["default"] = vals["default"][1]
                if pick(.1): vals["example"] = S(r.choice(WORDS)); tags["example"] = vals["example"][1]
                if pick(.06):
                    ex = r.sample(WORDS, 2)
                    vals["examples"] = tagj(ex); tags["examples"] = json.dumps(ex)
                if pick(.05): vals["const"] = S(r.choice(WORDS)); tags["const"] = vals["const"][1]
            elif b.startswith(("int", "uint")):
                if pick(.25) and not b.startswith("uint"): tags["minimum"] = str(r.randint(-9, 4))
                if pick(.2): tags["maximum"] = str(r.randint(5, 900))
                if pick(.1) and not b.startswith("uint"): tags["exclusiveMinimum"] = str(r.randint(-12, 3))
                if pick(.1): tags["exclusiveMaximum"] = str(r.randint(5, 900))
                if pick(.1): tags["multipleOf"] = str(r.randint(2, 9))
                if pick(.1) and b != "uint8": tags["enum"] = ",".join(str(x) for x in r.sample(range(1, 90), r.randint(1, 3)))
                if pick(.1): vals["default"] = N(r.randint(1, 50)); tags["default"] = vals["default"][1]
                if pick(.1): vals["example"] = N(r.randint(1, 50)); tags["example"] = vals["example"][1]
            elif b.startswith("float"):
                if pick(.2): tags["minimum"] = canon(r.randint(-90, 40) / 10)
                if pick(.2): tags["maximum"] = canon(r.randint(50, 900) / 10)
                if pick(.08) and "minimum" not in tags: tags["exclusiveMinimum"] = canon(r.randint(-90, 40) / 10)
                if pick(.08) and "maximum" not in tags: tags["exclusiveMaximum"] = canon(r.randint(50, 900) / 10)
                if pick(.08): tags["multipleOf"] = r.choice(["0.5", "2.25", "3"])
                if pick(.1): vals["default"] = N("1.5"); tags["default"] = "1.5"
                if pick(.08): vals["example"] = N("-2.25"); tags["example"] = "-2.25"
            elif b == "bool":
                if pick(.15):
                    v = r.choice(["true", "false"])
                    vals["default"] = B(v == "true"); tags["default"] = v
        elif t["k"] == "slice":
            if pick(.25): tags["minItems"] = str(r.randint(1, 3))
            if pick(.2): tags["maxItems"] = str(r.randint(4, 9))
            if pick(.2): tags["uniqueItems"] = r.choice(["true", "false"])
            if not nested and t["e"]["k"] == "basic" and t["e"]["b"] == "string":
                if pick(.08): vals["default"] = tagj(r.sample(WORDS, r.randint(1, 2))); tags["default"] = json.dumps([x[1] for x in vals["default"][1]])
                if pick(.08): vals["example"] = tagj(r.sample(WORDS, r.randint(1, 2))); tags["example"] = json.dumps([x[1] for x in vals["example"][1]])
                if pick(.15): tags["items.minLength"] = str(r.randint(1, 4))
                if pick(.15): tags["items.enum"] = ",".join(r.sample(WORDS, 2))
        elif t["k"] == "map":
            if pick(.2): tags["minProperties"] = str(r.randint(1, 3))
            if pick(.2): tags["maxProperties"] = str(r.randint(4, 9))
        if pick(.1): tags["readOnly"] = "true"
        if pick(.08): tags["writeOnly"] = "true"
        if pick(.1): tags["title"] = "T " + r.choice(WORDS)
        if pick(.12): tags["description"] = "D " + r.choice(WORDS)
        if pick(.1): tags["deprecated"] = r.choice(["true", "true", "false"])
        return tags, vals

    # -- types of values -----------------------------------------------------
    def scalar(self):
        r = self.rng
        x = r.random()
        if x < .75:
            return basic(r.choice(SCALARS))
        if x < .85:
            return r.choice(self.sc)
        return basic(r.choice(["time", "date"]))

    def json_value(self, depth=0):
        r = self.rng
        x = r.random()
        if x < .42:
            return self.scalar()
        if x < .5:
            return basic(r.choice(["any", "bytes", "raw"]))
        if x < .6:
            return ptr(basic(r.choice(SCALARS)))
        if x < .75 and self.jt:
            t = r.choice(self.jt)
            return ptr(t) if r.random() < .4 else t
        if depth < 2:
            if x < .87:
                e = self.json_value(depth + 1)
                e = e if not (e["k"] == "basic" and e["b"] == "uint8") else basic("string")
                return slc(e) if r.random() < .85 else arr(r.randint(1, 3), e)
            if x < .94:
                e = self.json_value(depth + 1)
                return mp(e) if r.random() < .75 else kmp(r.choice(["int", "Str1", "Num1", "uint8"]), e)
            return struct(self.json_fields(r.randint(1, 2), "json", depth + 1, nested=True))
        return self.scalar()

    def json_fields(self, n, tag, depth=0, nested=True, used=None):
        r = self.rng
        names = [x for x in FIELDS if x not in (used or [])]
        fs = []
        for fn in r.sample(names, min(n, len(names))):
            t = self.json_value(depth)
            nm = fn.lower() if r.random() < .8 else r.choice(WORDS) + fn
            opt = ",omitempty" if r.random() < .3 else ""
            tags, vals = self.constraints(t, nested)
            if tag == "json" and r.random() < .05:
                fs.append(field(fn, t, {"json": "-"}))
                continue
            if t["k"] != "named" and not (t["k"] == "ptr" and t["e"]["k"] == "named") and t["k"] != "struct" and r.random() < .07 \
                    and not (t["k"] == "basic" and t["b"] in ("any", "raw")):
                tags["nullable"] = r.choice(["true", "false"])
            if r.random() < .3:
                tags["required"] = "true"
            tg = {tag: nm + opt}
            tg.update(tags)
            fs.append(field(fn, t, tg, vals=vals))
        return fs

    def traits(self, p=.2):
        r = self.rng
        tr = {}
        if r.random() < p: tr["desc"] = "Type " + r.choice(WORDS)
        if r.random() < p: tr["title"] = "Title " + r.choice(WORDS)
        return tr

    def unnamed(self, tag=None):
        """An unnamed field that configures the structure."""
        r = self.rng
        tags = {}
        if tag:
            tags[tag] = "_"
        if r.random() < .6: tags["additionalProperties"] = r.choice(["false", "false", "true"])
        if not tag and r.random() < .4: tags["description"] = "Conf " + r.choice(WORDS)
        if not tag and r.random() < .4: tags["title"] = "Conf " + r.choice(WORDS)
        return field("_", struct([]), tags)

    def json_type(self):
        r = self.rng
        n = self.name("J")
        fs = []
        if r.random() < .25 and self.jt:
            base = r.choice(self.jt)
            if self.named[base["n"]]["def"]["k"] == "struct" and base["n"] not in self.expr and not self.named[base["n"]]["tr"] \
                    and base["n"] not in ("Tree", "Ping", "Pong"):
                t = base if r.random() < .6 else ptr(base)
                if base["n"][0].isupper() and r.random() < .35:
                    fs.append(field(base["n"], t, {"json": r.choice(["base", "base,omitempty", "-"])}, emb=True))
                else:
                    fs.append(field(base["n"], t, {"refer": "true"} if base["n"][0].isupper() and r.random() < .5 else {}, emb=True))
        fs += self.json_fields(r.randint(1, 5), "json")
        if r.random() < .25:
            fs.append(self.unnamed())
        # Fields of other locations do not belong to the JSON form.
        if r.random() < .2:
            fs.append(field("Untagged", basic("string"), {}))
        tr = self.traits()
        if r.random() < .25:
            kw = r.choice(["oneOf", "anyOf", "allOf", "not"])
            one = lambda: r.choice([basic(r.choice(SCALARS)), r.choice(self.jt), r.choice(self.jt), ptr(r.choice(self.jt))])
            tr[kw] = one() if kw == "not" else [one() for _ in range(r.randint(1, 3))]
        if r.random() < .07:
            tr["inline"] = True
        self.jt.append(self.add(n, struct(fs), tr))

    def query_type(self):
        r = self.rng
        n = self.name("Q")
        fs = []
        for fn in r.sample(FIELDS, r.randint(1, 3)):
            t = r.choice([basic("string"), basic("int"), ptr(basic("bool")), slc(basic("string"))] + [q for q in self.qt])
            tags, vals = self.constraints(t, True)
            tg = {"query": fn.lower()}
            tg.update(tags)
            fs.append(field(fn, t, tg, vals=vals))
        self.qt.append(self.add(n, struct(fs)))

    def loc_type(self, tag):
        """A structure whose fields are tagged for headers or cookies."""
        r = self.rng
        n = self.name("L")
        fs = []
        for fn in r.sample(FIELDS, r.randint(1, 3)):
            t = r.choice([basic("string"), basic("int"), ptr(basic("bool")), slc(basic("string"))] + self.lt[tag])
            tags, vals = self.constraints(t, True)
            tg = {tag: fn.lower()}
            tg.update(tags)
            fs.append(field(fn, t, tg, vals=vals))
        self.lt[tag].append(self.add(n, struct(fs)))

    def form_type(self):
        r = self.rng
        n = self.name("F")
        tag = r.choice(["formData", "form"])
        fs = []
        for fn in r.sample(FIELDS, r.randint(1, 3)):
            t = r.choice([basic("string"), basic("int"), slc(basic("string"))] + self.ft + [slc(f) for f in self.ft])
            if tag == "formData" and r.random() < .15:
                t = r.choice([FILE, ptr(FILEH), slc(FILE), slc(ptr(FILEH))])
            tags, vals = self.constraints(t, True)
            if "file" in str(t):
                tags, vals = {}, {}
            tg = {tag: fn.lower()}
            tg.update(tags)
            fs.append(field(fn, t, tg, vals=vals))
        self.ft.append(self.add(n, struct(fs)))

    # -- request structures --------------------------------------------------
    PATHS = [[], [], ["id"], ["id"], ["id"], ["id", "name"], ["x", "y"], ["user-id"]]

    def param_fields(self, names, used, tag, both=False):
        """One field per name in the location."""
        r = self.rng
        fs = []
        for nm in names:
            free = [x for x in FIELDS if x not in used]
            if not free:
                break
            fn = r.choice(free)
            used.append(fn)
            tags, vals = {}, {}
            if tag == "path":
                t = self.scalar() if r.random() < .95 else r.choice(self.jt)
            elif tag == "query":
                x = r.random()
                if x < .45: t = self.scalar()
                elif x < .55: t = ptr(basic(r.choice(SCALARS)))
                elif x < .7: t = slc(basic(r.choice(["string", "int", "float64"])))
                elif x < .76: t = mp(basic("string"))
                elif x < .84 and self.qt:
                    t = r.choice(self.qt)
                    if r.random() < .25: t = slc(t)
                elif x < .94 and self.jt:
                    t = r.choice(self.jt)
                    if r.random() < .4: t = ptr(t)
                elif x < .97: t = slc(r.choice(self.jt)); tags["collectionFormat"] = "json"
                else: t = mp(basic("int")); tags["collectionFormat"] = "json"
            else:
                x = r.random()
                if x < .08 and self.lt[tag] and not self.strict: t = r.choice(self.lt[tag])
                elif x < .15 and self.jt: t = r.choice(self.jt)
                elif x < .18: t = ptr(r.choice(self.jt))
                else: t = r.choice([self.scalar(), self.scalar(), ptr(basic("string")), slc(basic("string"))])
            # Structures without JSON properties are objects spread over the location.
            if self.strict and tag != "query" and not self.as_json(t):
                t = basic("string")
            c, vals = self.constraints(t)
            tags.update(c)
            if t["k"] == "slice" and "collectionFormat" not in tags and r.random() < .6:
                if tag == "query" or not self.strict:
                    tags["collectionFormat"] = r.choice(["csv", "ssv", "pipes", "multi"])
                elif tag == "cookie":
                    tags["collectionFormat"] = r.choice(["csv", "multi"])
            if r.random() < .35: tags["required"] = r.choice(["true", "true", "false"])
            if r.random() < .08: tags["explode"] = r.choice(["true", "false"])
            if r.random() < .08: tags["description"] = "P " + r.choice(WORDS)
            if r.random() < .08 and t["k"] in ("slice", "basic") : tags["allowEmptyValue"] = "true"
            tg = {tag: nm + (",omitempty" if r.random() < .06 else "")}
            tg.update(tags)
            # A field may belong to the body, too.
            if both and t["k"] == "basic" and r.random() < .22:
                tg["json"] = nm if r.random() < .7 else "j_" + nm
            fs.append(field(fn, t, tg, vals=vals))
            if r.random() < .03:
                free = [x for x in FIELDS if x not in used]
                if free:
                    used.append(free[0])
                    fs.append(field(free[0], basic("string"), {tag: "-"}))
        return fs

    def header_name(self):
        r = self.rng
        w = r.choice(WORDS)
        return r.choice(["X-" + w.capitalize()] * 5 + ["x-" + w, "X-" + w.upper() + "-id", w + "-X", "ETag"])

    def bare(self, t):
        return t["e"] if t["k"] == "ptr" else t

    def virtual(self, fs, tr):
        few = not any("json" in f["tags"] for f in fs)
        return self.rng.random() < (.4 if few else .14) and not any(f["emb"] for f in fs) and not set(tr) - {"title", "desc"} \
            and not any(f["t"]["k"] == "file" or f["t"] == basic("any") for f in fs)

    def add_around(self, n, fs, used):
        """A structure with a part made up at run time."""
        r = self.rng
        tr = self.traits(.3)
        more = self.json_fields(r.randint(1, 2), "json", nested=False, used=used + [f["n"] for f in fs])
        more = [f for f in more if f["t"] != basic("any")]
        for f in more:
            f["tags"] = {k: "v_" + v if k == "json" and v != "-" else v for k, v in f["tags"].items()}
        v = self.add_virtual("V" + n, more, tr)
        if r.random() < .3:
            return self.add(n, struct(fs + [field("Meta", v, {"json": "meta"})]))
        # The whole is named after the embedded part.
        t = self.add(n, struct(fs + [field("Struct", v, {}, emb=True)]), tr)
        self.named[n]["raw"] = "V" + n
        self.decl[n] = "type %s %s\n" % (n, self.go(struct(fs + [field("Struct", v, {}, emb=True)])))
        self.named[n]["tr"] = dict(tr, around=True)
        return t

    def add_virtual(self, n, fs, tr):
        t = self.add(n, struct(fs), dict(tr, virt=True), expr="jsonschema.Struct", decl="")
        self.named[n]["raw"] = n
        return t

    def as_json(self, t):
        """Whether a value is not a structure, or one with JSON properties."""
        if t["k"] == "ptr":
            return self.as_json(t["e"])
        d = self.named[t["n"]]["def"] if t["k"] == "named" else t
        if d["k"] != "struct":
            return True
        has = lambda f: (f["tags"].get("json") != "-" and self.as_json(f["t"]) and f["t"]["k"] in ("named", "ptr")) if f["emb"] \
            else f["tags"].get("json", "").split(",")[0] not in ("", "-")
        return any(has(f) for f in d["f"])

    def req_type(self):
        r = self.rng
        n = self.name("R")
        used = []
        fs = []
        path = list(r.choice(self.PATHS))
        kind = r.choice(["none", "json", "json", "json", "form", "form", "both", "both"][:4 if self.pwt else None])
        both = kind in ("json", "both")
        fs += self.param_fields(path, used, "path", both)
        qs = r.sample(WORDS, r.choice([0, 1, 1, 2]))
        # Names are case-sensitive.
        qs += [w.capitalize() for w in qs + path if r.random() < .07]
        # The same name in several locations.
        qs += [w for w in path if r.random() < .07]
        fs += self.param_fields(qs, used, "query", both)
        fs += self.param_fields([self.header_name() for _ in range(r.choice([0, 0, 1]))] + [w for w in path + qs if r.random() < .05], used, "header", both)
        fs += self.param_fields(["c_" + w for w in r.sample(WORDS, r.choice([0, 0, 1]))] + [w for w in path + qs if r.random() < .05], used, "cookie", both)
        tr = self.traits(.1)
        if kind in ("form", "both"):
            tag = r.choice(["formData", "formData", "form"])
            for nm in r.sample(WORDS, r.randint(1, 3)):
                free = [x for x in FIELDS if x not in used]
                if not free:
                    break
                fn = r.choice(free)
                used.append(fn)
                x = r.random()
                if x < .5: t = self.scalar()
                elif x < .62: t = slc(basic(r.choice(["string", "int"])))
                elif x < .7: t = ptr(basic("string"))
                elif x < .76 and tag == "formData": t = FILE
                elif x < .82 and tag == "formData": t = ptr(FILEH)
                elif x < .86 and tag == "formData": t = slc(FILE)
                elif x < .9 and tag == "formData": t = slc(ptr(FILEH))
                else:
                    t = r.choice(self.ft)
                tags, vals = self.constraints(t)
                if t["k"] in ("file", "fileh") or (t["k"] in ("ptr", "slice") and t["e"]["k"] in ("file", "fileh", "ptr")):
                    tags, vals = {}, {}
                tg = {tag: "f_" + nm}
                tg.update(tags)
                if r.random() < .25: tg["required"] = "true"
                if both and t["k"] == "basic" and r.random() < .3:
                    tg["json"] = nm
                fs.append(field(fn, t, tg, vals=vals))
        if both:
            fs += self.json_fields(r.randint(1, 4), "json", nested=False, used=used)
            free = [x for x in FIELDS if x not in used and x not in [f["n"] for f in fs]]
            if r.random() < .06 and free:
                fs.append(field(r.choice(free), r.choice([FILE, ptr(FILEH), slc(FILE), slc(ptr(FILEH))]), {"json": "j_file"}))
            if kind == "both" and r.random() < .5:
                tr["forceJSON"] = True
        if r.random() < .12:
            tr["forceBody"] = True
        if r.random() < .2:
            used_tag = r.choice(["query", "path", "header", "cookie", None])
            fs.append(self.unnamed(used_tag))
        if r.random() < .1:
            fs.append(field("_", struct([]), {"contentType": r.choice(["text/csv", "application/xml"])}))
        mapped = []
        for fn in ["Map1", "Map2"]:
            if r.random() < .25:
                fs.append(field(fn, basic(r.choice(["string", "int"])), {}))
                mapped.append(fn)
        r.shuffle(fs)
        # Fields that may be renamed: parameters that are not structures.
        own = lambda l: {f["n"]: f["tags"][l].split(",")[0] for f in fs if f["tags"].get(l, "-") != "-" and f["n"] != "_"}
        tagged = {l: own(l) for l in ("path", "header", "cookie")}
        # Half of the fields may come from an embedded structure.
        if len(fs) > 2 and r.random() < .25:
            cut = len(fs) // 2
            emb = [f for f in fs[:cut] if f["n"] != "_"]
            rest = [f for f in fs if f not in emb]
            if emb:
                en = self.name("E")
                en = en[0].upper() + en[1:]
                et = self.add(en, struct(emb))
                rest.insert(r.randint(0, len(rest)), field(en, et if r.random() < .7 else ptr(et), {}, emb=True))
                fs = rest
        # Structures without a name document the same, with no component of their own.
        t = struct(fs) if not tr and r.random() < .2 else None
        if not t and not tr and kind not in ("form", "both") and r.random() < .1:
            t = self.add_around(n, fs, used)
        if not t and self.virtual(fs, tr) and kind not in ("form", "both"):
            t = self.add_virtual(n, fs, tr)
        t = t or self.add(n, struct(fs), tr)
        tt = ptr(t) if r.random() < .6 else t
        self.reqs.append(self.value("req:" + n, tt, path=path, mapped=mapped, kind=kind, tagged=tagged,
                                    formmap=[m for m in mapped if r.random() < .5 and kind in ("none", "form") and not self.pwt and not self.is_virtual(t) and "around" not in str(self.named.get(t.get("n"), {}).get("tr"))]))

    # -- response structures -------------------------------------------------
    def resp_type(self):
        r = self.rng
        n = self.name("P")
        x = r.random()
        if x < .12:
            t = r.choice([slc(r.choice(self.jt)), mp(r.choice(self.jt)), slc(basic("string")), basic("string"), basic("int")] + self.js)
            # A pointer would make the component of a named list nullable for everyone.
            coll = t["k"] == "named" and self.named[t["n"]]["def"]["k"] != "struct"
            self.resps.append(self.value("resp:" + n, t if coll or r.random() < .6 else ptr(t)))
            return
        if x < .2:
            t = r.choice(self.jt)
            self.resps.append(self.value("resp:" + n, ptr(t)))
            return
        used = []
        fs = self.param_fields(list(dict.fromkeys(self.header_name() for _ in range(r.choice([0, 1, 2])))), used, "header", True)
        if r.random() < .8:
            fs += self.json_fields(r.randint(1, 4), "json", nested=False, used=used)
        if r.random() < .12:
            fs.append(field("_", struct([]), {"contentType": r.choice(["text/csv", "application/xml", "application/json"])}))
        mapped = []
        if r.random() < .2:
            fs.append(field("Map1", basic("string"), {}))
            mapped.append("Map1")
        r.shuffle(fs)
        tagged = {"header": {f["n"]: f["tags"]["header"].split(",")[0] for f in fs if f["tags"].get("header", "-") != "-" and f["n"] != "_"}}
        tr = self.traits(.25)
        if r.random() < .15:
            fs.append(self.unnamed())
        t = struct(fs) if not tr and r.random() < .25 else None
        if not t and not tr and r.random() < .1:
            t = self.add_around(n, fs, used)
        if not t and self.virtual(fs, tr):
            t = self.add_virtual(n, fs, tr)
        t = t or self.add(n, struct(fs), tr)
        self.resps.append(self.value("resp:" + n, ptr(t) if r.random() < .6 else t, mapped=mapped, tagged=tagged))
