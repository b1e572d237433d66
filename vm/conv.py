"""Random JSON Schemas for conversions and exports."""
import json

X = "#/components/schemas/"
NAMES = ["A", "B", "Node", "Tree.Leaf", "X-1", "C_d"]
MODERN = ["prefixItems", "unevaluatedItems", "unevaluatedProperties", "$defs", "dependentSchemas", "contentSchema"]


class Schemas:
    def __init__(self, r, full, dangling=0.0):
        # full: keywords of JSON Schema 2020-12 in 3.1 documents.
        self.r, self.full, self.dangling = r, full, dangling

    def p(self, x):
        return self.r.random() < x

    def value(self, d=2):
        r = self.r
        k = r.randrange(8 if d else 6)
        if k == 0:
            return None if d < 2 else "n"
        if k == 1:
            return r.choice([True, False])
        if k in (2, 3):
            return r.choice([0, 1, -5, 7, 1.5, 1000000])
        if k in (4, 5):
            return r.choice(["", "a", "text", "null", "1", "$ref"])
        if k == 6:
            return [self.value(d - 1) for _ in range(r.randrange(3))]
        return {r.choice(["a", "b", "$ref", "type", "x-y"]): self.value(d - 1) for _ in range(r.randrange(3))}

    def ref(self):
        n = self.r.choice(NAMES[:4])
        return {"$ref": self.r.choice([X + "NoSuch", "https://example.com/s.json", "#/definitions/A"]) if self.p(self.dangling) else X + n}

    def sub(self, d, boolean=.12):
        if self.p(boolean):
            return self.r.choice([True, False])
        if d <= 0 and self.p(.5) or self.p(.18):
            f = self.ref()
            if self.p(.15):
                f["deprecated"] = self.r.choice([True, True, False])
            if self.p(.12):
                f["description"] = "about"
            if self.full and self.p(.15):
                f.update(self.obj(d - 1, few=True))
            return f
        return self.obj(d)

    def obj(self, d, few=False):
        r, f = self.r, {}
        for _ in range(r.choice([0, 1, 1] if few else [0, 1, 1, 2, 3, 4, 6])):
            self.keyword(f, d)
        return f

    def keyword(self, f, d):
        r = self.r
        k = r.randrange(24 if d <= 0 else 48)
        if k == 0:
            f["type"] = r.choice(["string", "integer", "number", "boolean", "array", "object", "null"])
        elif k == 1:
            q = [r.choice(["string", "integer", "number", "boolean", "array", "object"]), "null"]
            r.shuffle(q)
            f["type"] = q
        elif k == 2:
            f["type"] = [r.choice(["string", "object"])]
        elif k == 3:
            f[r.choice(["minimum", "exclusiveMinimum"])] = r.choice([0, 1, -3, 10, 250])
        elif k == 4:
            f[r.choice(["maximum", "exclusiveMaximum"])] = r.choice([0, 1, -3, 10, 250])
        elif k == 5:
            f["multipleOf"] = r.choice([1, 2, 0.5, 10])
        elif k in (6, 7):
            f[r.choice(["minLength", "minItems", "minProperties"])] = r.choice([1, 2, 30])
        elif k in (8, 9):
            f[r.choice(["maxLength", "maxItems", "maxProperties"])] = r.choice([0, 1, 2, 30])
        elif k == 10:
            f["uniqueItems"] = r.choice([True, False])
        elif k == 11:
            f["enum"] = [self.value() for _ in range(r.randint(1, 3))] + ([None] if self.p(.3) else [])
        elif k == 12:
            f["required"] = r.sample(["a", "b", "c", "$ref"], r.randint(1, 3))
        elif k == 13:
            f["pattern"] = r.choice(["^a+$", "[0-9]{2}", ""])
        elif k == 14:
            f["format"] = r.choice(["date", "int32", "custom"])
        elif k == 15:
            f["title"] = r.choice(["T", "null"])
        elif k == 16:
            f["description"] = r.choice(["D", "two\nlines"])
        elif k == 17:
            v = self.value()
            f["default"] = v if v is not None else 0
        elif k == 18:
            f["examples"] = [v if v is not None else "" for v in (self.value() for _ in range(r.randint(1, 3)))]
        elif k == 19:
            f[r.choice(["readOnly", "writeOnly", "deprecated"])] = r.choice([True, False])
        elif k in (20, 21):
            f["x-" + r.choice(["a", "b", "foo-bar"])] = self.value()
        elif k == 22:
            # Not expressible in OpenAPI 3.0.
            f[r.choice(["$comment", "$id", "contentMediaType", "contentEncoding", "const", "custom"])] = r.choice(["a", "b"])
        elif k == 23:
            f[r.choice(["title", "format"])] = "z"
        elif k < 28:
            f[r.choice(["not", "items"])] = self.sub(d - 1)
        elif k < 33:
            f[r.choice(["allOf", "anyOf", "oneOf"])] = [self.sub(d - 1) for _ in range(r.randint(1, 3))]
        elif k < 38:
            f["properties"] = {n: self.sub(d - 1) for n in r.sample(["a", "b", "c", "$ref", "properties"], r.randint(1, 3))}
        elif k < 41:
            f["additionalProperties"] = self.sub(d - 1, .35)
        elif not self.full:
            # Applicators 3.0 does not have.
            if self.p(.4):
                f[r.choice(["if", "then", "contains", "propertyNames"])] = self.sub(d - 1)
            else:
                f["properties"] = {n: self.sub(d - 1) for n in r.sample(["a", "b"], 1)}
        elif k < 43:
            f[r.choice(["if", "then", "else", "contains", "propertyNames", "additionalItems", "unevaluatedItems", "unevaluatedProperties", "contentSchema"])] = self.sub(d - 1)
        elif k < 45:
            f[r.choice(["patternProperties", "definitions", "$defs", "dependentSchemas"])] = {n: self.sub(d - 1) for n in r.sample(["a", "b"], r.randint(1, 2))}
        elif k == 45:
            f["prefixItems"] = [self.sub(d - 1) for _ in range(r.randint(1, 2))]
        elif k == 46:
            f["items"] = [self.sub(d - 1) for _ in range(r.randint(1, 2))]
        else:
            f["dependencies"] = {"a": r.choice([["b"], self.sub(d - 1, 0)]), "b": ["a", "c"]}

    def comps(self, d=2):
        return {n: self.sub(self.r.randint(0, d), 0) for n in (NAMES[:4] if self.dangling == 0 else NAMES[:self.r.randint(1, 4)])}

    def refs(self):
        return [X + self.r.choice(NAMES + ["", "a", "Node/properties/a"]) if self.p(.8) else self.r.choice(["", "A", "#/components/responses/A", "#/definitions/A", "schemas/A"]) for _ in range(2)]


class OAS(Schemas):
    """Schemas of OpenAPI 3.0 documents made by hand."""

    def sub(self, d, boolean=0):
        if d <= 0 and self.p(.5) or self.p(.18):
            return self.ref()
        return self.obj(d)

    def keyword(self, f, d):
        r = self.r
        k = r.randrange(14 if d <= 0 else 22)
        if k == 0:
            f["type"] = r.choice(["string", "integer", "number", "boolean", "array", "object"])
        elif k == 1:
            f["nullable"] = self.p(.6)
        elif k in (2, 3):
            b = r.choice(["minimum", "maximum"])
            f[b] = r.choice([0, 1, -3, 10, 2.5])
            if self.p(.6):
                f["exclusive" + b.capitalize()] = self.p(.5)
        elif k == 4:
            f[r.choice(["minLength", "minItems", "minProperties"])] = r.choice([1, 2, 30])
        elif k == 5:
            f[r.choice(["maxLength", "maxItems", "maxProperties"])] = r.choice([0, 1, 30])
        elif k == 6:
            f[r.choice(["uniqueItems", "readOnly", "writeOnly", "deprecated"])] = self.p(.5)
        elif k == 7:
            f["enum"] = [self.value() for _ in range(r.randint(1, 3))] + ([None] if self.p(.3) else [])
        elif k == 8:
            f["required"] = r.sample(["a", "b", "c", "$ref"], r.randint(1, 3))
        elif k == 9:
            f[r.choice(["default", "example"])] = self.value() or 0
        elif k == 10:
            f["x-" + r.choice(["a", "b", "foo-bar"])] = self.value()
        elif k == 11:
            f[r.choice(["title", "description", "format", "pattern"])] = r.choice(["", "z", "two\nlines"])
        elif k == 12:
            f["multipleOf"] = r.choice([1, 2, 0.5])
        elif k == 13:
            # Not known to JSON Schema.
            n = r.choice(["xml", "externalDocs", "discriminator"])
            f[n] = {"xml": {"name": "n"}, "externalDocs": {"url": "/u"}, "discriminator": {"propertyName": "p"}}[n]
        elif k < 16:
            f[r.choice(["not", "items"])] = self.sub(d - 1)
        elif k < 18:
            f[r.choice(["allOf", "anyOf", "oneOf"])] = [self.sub(d - 1) for _ in range(r.randint(1, 3))]
        elif k < 20:
            f["properties"] = {n: self.sub(d - 1) for n in r.sample(["a", "b", "c", "$ref", "properties"], r.randint(1, 3))}
        else:
            f["additionalProperties"] = r.choice([True, False]) if self.p(.3) else self.sub(d - 1)


def scenarios(r, kind, n, per=20, depth=(0, 4), dangling=0.0):
    scs = []
    for i in range(n):
        items = []
        for _ in range(per):
            g = OAS(r, False, dangling) if kind == "oas" else Schemas(r, kind == "export31", dangling)
            it = {"k": kind, "comps": g.comps(), "refs": g.refs()}
            it["s"] = g.ref() if r.random() < .3 else g.sub(r.randint(*depth), .02 if kind == "conv" else 0)
            if kind == "export31" and it["s"].get("$ref") and r.random() < .3:
                it["s"] = dict(it["s"], **g.obj(1))
            items.append(it)
        scs.append({"sc": "%s-%d" % (kind, i), "items": items})
    return scs


def of_model(values):
    """Scenarios for schemas printed by MCConv (tagged)."""
    seen = {}
    for v in values:
        s = untag(v)
        seen.setdefault(json.dumps(s, sort_keys=True), s)
    items = [{"k": "conv", "s": s, "comps": {}, "refs": []} for s in seen.values()]
    return [{"sc": "mc-%d" % i, "items": items[i:i + 200]} for i in range(0, len(items), 200)]


def number(t):
    return float(t) if "." in t else int(t)


def untag(v):
    t = v[0]
    if t == "z":
        return None
    if t == "n":
        return number(v[1])
    if t in "sb":
        return v[1]
    if t == "a":
        return [untag(x) for x in v[1]]
    if isinstance(v[1], list):      # the empty function
        return {}
    return {k: untag(x) for k, x in v[1].items()}
