"""Objects of OpenAPI documents: those of the model and random deeper ones.

What a kind of object looks like is taken from the specification (Codec.tla,
printed by MCCodec), so is the verdict about every generated object."""
import json
import re

from .conv import Schemas, untag

METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]
ODD = ["", "a", "some text", "null", "~", "true", "yes", "on", "1", "0x1", "1e3", "1_000", "12:30:45", "2020-01-01", "- a", ": x", "#c", "a #b", "a: b",
       "two\nlines", "two\nlines\n", "  lead", "trail ", "\ttab", "'", "\"", "{a}", "[a]", "&a", "*a", "!a", "%a", "@a", "`", "|", ">", "?", "-", "=", "<<", "\u00e9\u4e16", "\u2028", "a\\b",
       "<b>&amp;</b>", "0123", "1.0", ".5", "+1", ".inf", "NaN", "a\r\nb", "x" * 90, "word " * 30, "\U0001f600", "\u007f", "\u0085"]
KEYS = ["a", "b", "Foo", "x-k", "yes", "n", "null", "~", "1", "0", "42", "-3", "200", "1.5", "0x1f", "2020-01-01", "a b", "a:b", "#a", "$ref", "- a", "application/json", "", "\u00e9", "type", "{id}", "@", "'q'"]
COMPKEYS = ["a", "A.b", "x-k", "No", "null", "1", "0", "42", "-7", "1234567890", "1.5", "2020-01-01", "_", "-", "a-b_c.D", "0x1f", "true"]


def of_model(values):
    """Scenarios for objects printed by MCCodec."""
    seen = {}
    for v in values:
        it = {"v": v["v"], "kind": v["kind"], "in": untag(v["value"])}
        seen.setdefault(json.dumps(it, sort_keys=True), it)
    items = [seen[k] for k in sorted(seen)]
    return [{"sc": "mc-%d" % i, "items": items[i:i + 100]} for i in range(0, len(items), 100)]


class Objects:
    def __init__(self, r, kinds, ver):
        self.r, self.ver = r, ver
        self.kinds = kinds[ver]
        self.sites = []         # where a fault can be put
        self.top = [k for k in self.kinds if not (ver == "31" and re.match("SecurityScheme(APIKey|HTTP|Oauth2|Oidc|MutualTLS)", k))]

    def p(self, x):
        return self.r.random() < x

    def text(self):
        return self.r.choice(ODD if self.p(.4) else ["a", "b", "text", "Some name", "https://example.com/a?b=c#d"])

    def number(self):
        return self.r.choice([0, 1, -1, 3, 250, 1.5, -0.25, 1e21, 1e-7, 123456789012, 9007199254740991, 0.1, 100.0])

    def any(self, d=2):
        k = self.r.randrange(9 if d > 0 else 6)
        if k == 0:
            return None
        if k == 1:
            return self.r.choice([True, False])
        if k == 2:
            return self.number()
        if k < 6:
            return self.text()
        if k < 7:
            return [self.any(d - 1) for _ in range(self.r.randrange(4))]
        return {self.r.choice(KEYS): self.any(d - 1) for _ in range(self.r.randrange(4))}

    def free(self, d):
        s = Schemas(self.r, True).obj(min(d, 2))
        if self.p(.2):
            s[self.r.choice(["const", "custom", "x-a", "default"])] = self.any()
        return s

    def keys(self, where, n):
        if where == "comp":
            return self.r.sample(COMPKEYS, n)
        if where == "path":
            return self.r.sample(["/", "/a", "/a/{b}", "/x-y", "/~1", "/a b"], n)
        if where == "method":
            return self.r.sample(METHODS, n)
        if where == "code":
            return self.r.sample(["200", "404", "100", "5XX", "2XX", "302"], n)
        if where == "any":
            return self.r.sample([k for k in KEYS if not k.startswith("x-") and k != "$ref"] + ["{$request.body#/url}"], n)
        return self.r.sample([k for k in KEYS], n)

    def value(self, t, d, where=""):
        r = self.r
        k = t[0]
        if k in ("str", "link"):
            return self.text()
        if k == "version":
            return r.choice(["3.0.0", "3.0.3"] if self.ver == "3" else ["3.1.0", "3.1.1"])
        if k == "ref":
            return t[1] + r.choice(["A", "b-c", "x.y"])
        if k == "nobearer":
            return r.choice(["basic", "digest", "x"])
        if k == "style":
            return "form"
        if k == "bool":
            return r.choice([True, False])
        if k == "num":
            return self.number()
        if k == "nat":
            return r.choice([0, 1, 2, 30])
        if k == "any":
            return self.any()
        if k in ("free", "kfree"):
            return self.free(d)
        if k == "enum":
            return r.choice(t[1])
        if k == "list":
            q = [self.value(t[1], d - 1) for _ in range(r.choice([0, 1, 1, 2, 3] if d > 0 else [0, 1]))]
            self.site(q, t[1])
            return q
        if k in ("map", "kmap"):
            f = {x: self.value(t[1], d - 1) for x in self.keys(where, r.choice([0, 1, 1, 2, 3] if d > 0 else [0, 1]))}
            self.site(f, t[1])
            return f
        return self.obj(t[1], d)

    def site(self, coll, t):
        if coll:
            self.sites.append(("type", coll, self.r.choice(sorted(coll) if isinstance(coll, dict) else range(len(coll))), t))

    def obj(self, kind, d):
        r = self.r
        if kind == "!bool":
            return r.choice([True, False])
        K = self.kinds[kind]
        if K["alts"]:
            alts = K["alts"]
            if len(alts) == 2 and "eference" in alts[1]:
                return self.obj(alts[1 if self.p(.6 if d <= 0 else .2) else 0], d)
            return self.obj(r.choice(alts), d)
        mem = dict(K["mem"]) if K["mem"] else {}
        want = set(K["req"])
        dens = r.choice([.1, .3, .6, .9]) if d > 0 else .05
        for k in sorted(mem):
            if self.p(dens):
                want.add(k)
        f = {}
        self.rules(kind, want, f)
        for k in sorted(want):
            if k in f:
                continue
            t = mem[k]
            if k not in K["req"] and t[0] != "any" and k != "$ref" and kind != "Reference" and not (t[0] == "enum" and len(t[1]) == 1) and self.p(.02):
                f[k] = None
                continue
            f[k] = self.value(t, d - 1, "comp" if kind == "Components" else "")
            self.sites.append(("type", f, k, t))
        self.after(kind, f)
        for k in K["req"]:
            self.sites.append(("missing", f, k, None))
        if K["pat"]:
            w, t = K["pat"][0]
            for k in self.keys(w, r.choice([0, 1, 2, 3]) if d > 0 else 0):
                f[k] = self.value(t, d - 1)
                self.sites.append(("type", f, k, t))
        if K["ext"] and self.p(.15):
            for _ in range(r.randint(1, 2)):
                f[r.choice(["x-a", "x-b-c", "x-", "x-Yes", "x-1"])] = self.any()
        if K["strict"] and not (K["pat"] and K["pat"][0][0] == "any"):
            self.sites.append(("unknown", f, r.choice(["bogus", "X-a", "y"]), None))
        ks = list(f)
        r.shuffle(ks)
        q = {k: f[k] for k in ks}
        f.clear()
        f.update(q)
        return f

    def rules(self, kind, want, f):
        """Rules across members."""
        r = self.r

        def one(a, b):
            if a in want and b in want:
                want.discard(r.choice([a, b]))

        if kind == "Parameter" or kind == "Header" and self.ver == "31":
            want.add(r.choice(["schema", "content"]))
            one("schema", "content")
        if kind == "Parameter" and self.ver == "3":
            f["in"] = r.choice(["path", "query", "header", "cookie"])
            if f["in"] == "path":
                f["required"] = True
            q = {"path": ["matrix", "label", "simple"], "query": ["form", "spaceDelimited", "pipeDelimited", "deepObject"], "header": ["simple"], "cookie": ["form"]}
            if "style" in want:
                f["style"] = r.choice(q[f["in"]])
            # Members that exclude each other, one at a time.
            self.sites += [("set", f, "in", r.choice(sorted(q))), ("set", f, "style", r.choice(sum(q.values(), []))),
                           ("set", f, "schema", {}), ("set", f, "content", {"text/plain": {}}),
                           ("set", f, "required", r.random() < .3), ("missing", f, r.choice(["required", "schema", "content"]), None)]
        if kind == "Link":
            one("operationId", "operationRef")
            if self.ver == "3":
                self.sites.append(("set", f, r.choice(["operationId", "operationRef"]), "a"))
        if kind == "Example" and self.ver == "31":
            one("value", "externalValue")
            self.sites += [("set", f, "externalValue", "a"), ("set", f, "value", r.choice([None, 1, {}]))]
        if kind == "HTTPSecurityScheme":
            self.sites += [("set", f, "scheme", r.choice(["bearer", "basic", "Bearer"])), ("set", f, "bearerFormat", "JWT")]
            f["scheme"] = "bearer" if "bearerFormat" in want else r.choice(["bearer", "basic", "Bearer"])

    def after(self, kind, f):
        for k in ("schema", "content"):
            if kind in ("Parameter", "Header") and f.get(k, 0) is None:
                f[k] = {}
        # Content of parameters and headers is one media type.
        if kind in ("Parameter", "Header") and f.get("content") == {}:
            f["content"] = {"text/plain": {}}
        if kind == "HTTPSecurityScheme" and f.get("bearerFormat", 0) is None:
            del f["bearerFormat"]
        if kind in ("Link", "Example"):
            for k in ("operationId", "operationRef", "externalValue"):
                if f.get(k, 0) is None:
                    f[k] = "a"

    def bad(self, t):
        """A value of a wrong type."""
        r, k = self.r, t[0]
        if k in ("any", "link"):
            return None
        if k in ("str", "ref", "version", "nobearer", "style"):
            return r.choice([1, True, [], {}])
        if k == "bool":
            return r.choice(["true", 0, [], {}])
        if k == "num":
            return r.choice(["1", True, {}])
        if k == "nat":
            return r.choice(["1", 1.5, False])
        if k in ("free", "kfree"):
            return r.choice([1, "a", [], [{}]])
        if k == "enum":
            return r.choice(["", "other", 1, [], t[1][0] + "x", t[1][0].upper() if t[1][0] != "bearer" else "x"])
        if k == "list":
            return r.choice(["a", {}, 1])
        if k in ("map", "kmap"):
            return r.choice(["a", [], 1])
        return r.choice([1, "a", []] if t[1] == "SchemaAdditionalProperties" else [1, "a", [], True])

    def damage(self):
        """Puts one fault into the object made last."""
        if not self.sites:
            return
        what, o, k, t = self.r.choice(self.sites)
        if what == "missing":
            o.pop(k, None)
        elif what == "unknown":
            o[k] = self.any()
        elif what == "set":
            o[k] = t
        else:
            b = self.bad(t)
            if b is not None:
                o[k] = b


def scenarios(r, kinds, n, per=20, faults=.5, spec=.2, yaml=False, depth=(1, 6)):
    scs = []
    for i in range(n):
        items = []
        while len(items) < per:
            v = r.choice(["3", "31"])
            g = Objects(r, kinds, v)
            kind = "Spec" if r.random() < spec else r.choice(g.top)
            o = g.obj(kind, r.randint(*depth))
            if r.random() < faults:
                g.damage()
            it = {"v": v, "kind": kind, "in": o}
            if yaml and kind == "Spec":
                it["yaml"] = YAML(r).text(o)
            if len(json.dumps(it)) < 30000:
                items.append(it)
        scs.append({"sc": "codec-%d" % i, "items": items})
    return scs


def escape(t):
    """Characters YAML text cannot have."""
    for c in "\u007f\u0085\u2028":
        t = t.replace(c, "\\u%04x" % ord(c))
    return t


PLAIN = re.compile(r"^[A-Za-z_/][A-Za-z0-9_/.-]*$")
WORDS = {"y", "n", "yes", "no", "on", "off", "true", "false", "null"}


class YAML:
    """The same document as YAML text, in varying notations."""

    def __init__(self, r):
        self.r = r
        self.json = r.random() < .15
        self.indent = r.choice([1, 2, 2, 4])
        self.anchors = {}
        self.n = 0

    def text(self, o):
        if self.json:
            return escape(json.dumps(o, ensure_ascii=False, indent=self.r.choice([None, 2])))
        out = self.block(o, 0)
        return self.r.choice(["", "---\n", "# comment\n"]) + out.lstrip("\n") + "\n"

    def scalar(self, v, key=False):
        r = self.r
        if v is None:
            return r.choice(["null", "~", "Null"])
        if v is True:
            return r.choice(["true", "True", "TRUE", "yes", "on"]) if not key else "true"
        if v is False:
            return r.choice(["false", "False", "no", "off"])
        if isinstance(v, (int, float)):
            if isinstance(v, int) and abs(v) < 100 and r.random() < .2:
                return "%+d" % v if v else "0"
            t = repr(v)
            return t if "e" not in t or "." in t else t.replace("e", ".0e")
        if PLAIN.match(v) and v.lower() not in WORDS and r.random() < .8:
            return v
        if key and re.match(r"^(-?[1-9]\d{0,14}|0|true|false|-?[1-9]\d*\.[1-9])$", v) and r.random() < .5:
            return v
        if all(0x20 <= ord(c) < 0x7f for c in v) and r.random() < .5:
            return "'" + v.replace("'", "''") + "'"
        return escape(json.dumps(v, ensure_ascii=False))

    def flow(self, v):
        if isinstance(v, dict):
            return "{" + ", ".join(self.scalar(k, True) + ": " + self.flow(x) for k, x in v.items()) + "}"
        if isinstance(v, list):
            return "[" + ", ".join(self.flow(x) for x in v) + "]"
        return self.scalar(v)

    def block(self, v, d):
        """Text after a key or dash: either on the same line or a nested block."""
        r = self.r
        pad = " " * (d * self.indent)
        if isinstance(v, (dict, list)) and v and r.random() > .12:
            anchor = ""
            if d and r.random() < .15:
                t = json.dumps(v)
                if t in self.anchors:
                    return " *" + self.anchors[t]
                self.n += 1
                anchor = " &n%d" % self.n
            if isinstance(v, dict):
                body = "".join("\n" + pad + self.scalar(k, True) + ":" + self.block(x, d + 1) for k, x in v.items())
            else:
                body = "".join("\n" + pad + "-" + self.block(x, d + 1) for x in v)
            if anchor:
                self.anchors[t] = anchor[2:]
            return anchor + body
        if isinstance(v, (dict, list)):
            return " " + self.flow(v)
        if isinstance(v, str) and re.match(r"^[a-z][a-z ]*[a-z](\n[a-z ]*[a-z])*\n$", v) and d:
            return " |" + "".join("\n" + pad + ln for ln in v[:-1].split("\n"))
        return " " + self.scalar(v)
