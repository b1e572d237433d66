"""Random histories of calls on a document."""
from .typesgen import NONE, WORDS, tagj

METHODS = ["get", "post", "put", "delete", "patch", "head", "options", "trace"]
BAD_METHODS = ["", "connect", "gett", "post ", "query"]
PATHS = {
    (): ["/", "/a", "/b/c", "/A", "/a/", "/b", "/caf\u00e9 x", "/x.json"],
    ("id",): ["/a/{id}", "/a/{id:[0-9]+}", "/b/{id}", "/b/{id:\\d+}/c", "/A/{id}", "/a/{id}/", "/{id}", "/r/{id}/{id}", "/r/{id:a}/{id:b}"],
    ("user-id",): ["/u/{user-id}", "/u/{user-id:[a-z{]+}/z", "/u/{user-id}.{user-id}"],
    ("id", "name"): ["/a/{id}/{name}", "/a/{id:[0-9]+}/{name}", "/b/{id}-{name:[a-z]+}", "/c/{name}/{id}"],
    ("x", "y"): ["/t/{x}/{y}", "/t/{x:.+}/{y:.+}", "/u/{y}.{x}"],
}
HOOKS = ["created", "pet.deleted", "w 3", "/hook", "hook", "/a", "Created", "created/", "{odd}"]
STATUSES = [0, 0, 200, 201, 202, 204, 206, 301, 400, 404, 409, 422, 500, 503, 2, 3, 4, 5, 1, 299, 599]
MIMES = ["text/csv", "application/xml", "application/octet-stream", "image/png"]


def rand_case(r, s):
    x = r.random()
    if x < .5:
        return s.upper()
    if x < .8:
        return s
    return "".join(c.upper() if r.random() < .5 else c for c in s)


class Hist:
    """Builds one scenario."""

    def __init__(self, rng, g, **opt):
        self.r, self.g = rng, g
        self.cmds = []
        self.n = 0
        self.pool = None
        self.opt = opt
        self.live = []       # contexts that may be set up
        self.tried = []      # contexts whose registration was tried
        self.used = []       # methods and placeholders that may be registered
        # Few or similar response structures, paths that differ in numbers.
        self.resps = g.resps
        x = rng.random()
        virt = [k for k in g.resps if g.is_virtual(g.bare(g.values[k][0]))]
        if x < .15:
            self.resps = rng.sample(g.resps, min(4, len(g.resps)))
        elif x < .25 and len(virt) > 1:
            self.resps = virt
        self.numbered = rng.random() < .12

    # -- units ---------------------------------------------------------------
    def unit(self, key=None, **kw):
        u = {"g": "", "t": NONE, "ct": "", "fmt": "", "desc": "", "map": {}, "status": 0, "dflt": False, "ref": "", "prep": False, "bad": "", "cust": ""}
        if key:
            u["g"] = key
            u["t"] = self.g.values[key][0]
        u.update(kw)
        return u

    def broken(self, resp=False):
        """A unit of a structure that can not be reflected, or None."""
        r = self.r
        if r.random() >= self.opt.get("broken", 0):
            return None
        loc = r.choice(["header", "json"] if resp else ["query", "path", "header", "cookie", "json", "json", "formData", "form"])
        u = self.unit(bad=loc)
        u["g"] = "!" + loc + str(r.randrange(2))
        return u

    def req_unit(self, path=None, last=True):
        """A request unit; path is the list of placeholders to match, if any."""
        r, g = self.r, self.g
        u = self.broken()
        if u:
            u["ct"] = r.choice(["", "", "application/json", "application/x-www-form-urlencoded", "multipart/form-data", "text/csv"])
            u["prep"] = r.random() < .2
            return u
        x = r.random()
        if x < .06:
            return self.unit(ct=r.choice(MIMES), fmt=r.choice(["", "", "byte", "binary"]), desc=r.choice(["", "Raw"]))
        if x < .09 and last and not g.pwt:
            return self.unit(ct="application/json", ref="#/components/requestBodies/Shared")
        keys = self.fitting(path)
        key = r.choice(keys if r.random() < .85 else g.reqs)
        u = self.unit(key)
        x = r.random()
        if x < .08: u["ct"] = "application/json"
        elif x < .14: u["ct"] = "application/x-www-form-urlencoded"
        elif x < .16 and not self.has_files(u["t"]): u["ct"] = "multipart/form-data"
        if r.random() < .15: u["desc"] = "Body " + r.choice(WORDS)
        if r.random() < .04 and last: u["ref"] = "#/components/requestBodies/Shared"
        elif r.random() < .04: u["cust"] = "Custom " + r.choice(WORDS)
        self.mapping(u, key, path)
        u["prep"] = r.random() < .15
        return u

    def renames(self, key, names):
        """A mapping that makes path parameters of the type fit the placeholders, None if there is none."""
        m = self.g.meta[key]
        tagged = m["tagged"]["path"]
        spare = [fn for fn in m["mapped"] if fn not in m["formmap"]]
        if sorted(m["path"]) == sorted(names) or len(tagged) != len(m["path"]) or not len(tagged) <= len(names) <= len(tagged) + len(spare):
            return None
        missing = [n for n in names if n not in tagged.values()]
        fns = [fn for fn in sorted(tagged) if tagged[fn] not in names] + spare
        return dict(zip(fns, missing))

    def fitting(self, names):
        """Request structures that fit the placeholders, maybe with a mapping."""
        g, r = self.g, self.r
        if names is None:
            return g.reqs
        if r.random() < .15:
            keys = [k for k in g.reqs if self.renames(k, names)]
            if keys:
                return keys
        return [k for k in g.reqs if sorted(g.meta[k]["path"]) == sorted(names)] or g.reqs

    def mapping(self, u, key, names=None):
        r = self.r
        tagged = self.g.meta[key]["tagged"]
        done = {}
        if names is not None:
            done = self.renames(key, names) or {}
            own = sorted(tagged["path"])
            if not done and len(own) == 2 and r.random() < .1:
                done = {own[0]: tagged["path"][own[1]], own[1]: tagged["path"][own[0]]}
            if done:
                u["map"]["path"] = done
        for loc in ("header", "cookie"):
            for fn in sorted(tagged[loc]):
                if r.random() < .05:
                    u["map"].setdefault(loc, {})[fn] = "over_" + fn.lower()
        for fn in self.g.meta[key]["mapped"]:
            if fn in done:
                continue
            # Form components belong to the type: their mapping is always the same.
            if fn in self.g.meta[key]["formmap"]:
                u["map"].setdefault("formData", {})[fn] = "m_" + fn.lower()
            elif r.random() < .6:
                u["map"].setdefault(r.choice(["query", "header", "cookie"]), {})[fn] = "m_" + fn.lower()

    def has_files(self, t):
        return "file" in str(t) or (t["k"] == "ptr" and self.has_files(t["e"])) or \
            (t["k"] == "named" and "file" in str(self.g.named[t["n"]]["def"]))

    def resp_unit(self, used, last=True):
        r, g = self.r, self.g
        st = r.choice(self.pool or STATUSES)
        dflt = r.random() < (.3 if self.pool else .12)
        key = None if r.random() < .15 else r.choice(self.resps)
        u = self.broken(True) or self.unit(key)
        u.update(status=st, dflt=dflt)
        if u["bad"]:
            return u
        if dflt and r.random() < .7:
            u["status"] = 0
        x = r.random()
        if x < .2: u["ct"] = r.choice(MIMES + ["application/json", "application/json; charset=utf-8", "text/plain;charset=utf-8"])
        if u["ct"] and r.random() < .4: u["fmt"] = r.choice(["byte", "binary"])
        if r.random() < .25: u["desc"] = "Resp " + r.choice(WORDS)
        k = self.status_key(u)
        if r.random() < .05 and k not in used:
            u["ref"] = "#/components/responses/Shared"
        elif r.random() < .05: u["cust"] = "Custom " + r.choice(WORDS)
        if key:
            self.headers(u)
        u["prep"] = r.random() < .15
        return u

    def headers(self, u):
        """Names of response headers given by a mapping."""
        r, m = self.r, self.g.meta[u["g"]]
        for fn in m.get("mapped", []):
            if r.random() < .7:
                u["map"].setdefault("header", {})[fn] = "X-Mapped"
        for fn in sorted(m.get("tagged", {}).get("header", [])):
            if r.random() < .06:
                u["map"].setdefault("header", {})[fn] = "X-Over-" + fn

    @staticmethod
    def status_key(u):
        if u["dflt"]:
            return "default"
        s = u["status"] or 200
        return "%dXX" % s if s < 6 else str(s)

    # -- commands ------------------------------------------------------------
    def add(self, **c):
        self.cmds.append(c)
        return c

    def path(self, names):
        """A path with the placeholders; option few limits the choice."""
        ps = PATHS[names]
        if self.numbered:
            return self.r.choice(["/v1", "/v01", "/v001", "/v2", "/v10", "/v1.10", "/v1.9"]) + ps[0]
        return self.r.choice(ps[:2] if self.opt.get("few") else ps)

    def names(self):
        return self.r.choice(list(PATHS)[:2] if self.opt.get("few") or self.numbered else list(PATHS))

    def method(self, n=5):
        r = self.r
        if self.opt.get("few"):
            return rand_case(r, r.choice(["get", "post", "post"]))
        return rand_case(r, r.choice(METHODS[:n] if r.random() < .8 else METHODS))

    def new(self, hook=False, known=None):
        r = self.r
        self.n += 1
        c = "c%d" % self.n
        names = self.names() if known is None else known
        p = self.path(names)
        if hook:
            names, p = (), r.choice(HOOKS[:-1] if r.random() < .9 else HOOKS)
            if p == "{odd}":
                names = ("odd",)
        m = self.method() if r.random() < .96 else r.choice(BAD_METHODS)
        if not hook:
            self.used.append((m, names))
        self.add(ev="new", c=c, m=m, p=p)
        return c, list(names), m

    def setup(self, c, names, m, reqs=None, resps=None):
        r = self.r
        if r.random() < self.opt.get("meta", .35):
            self.meta(c)
        nreq = r.choice([0, 1, 1, 1, 1, 2]) if reqs is None else reqs
        if names and nreq == 0 and r.random() < .8:
            nreq = 1
        for i in range(nreq):
            u = self.req_unit(names if i == 0 else [], last=i == nreq - 1)
            self.add(ev="req", c=c, u=u)
        if r.random() < .12:
            x = r.random()
            nm = r.choice(names) if names and x < .5 else r.choice(WORDS)
            self.add(ev="opparam", c=c, name=nm, **{"in": r.choice(["query", "header", "path", "cookie", "ref"])})
        n = r.choice([0, 1, 1, 2, 2, 3]) if resps is None else resps
        refd = set()
        # Units often share statuses.
        self.pool = r.sample(STATUSES, r.choice([1, 2])) if r.random() < .5 else None
        if self.pool and n:
            n += r.choice([0, 1, 2])
        for i in range(n):
            u = self.resp_unit(refd)
            k = self.status_key(u)
            if k in refd:
                continue
            if u["ref"]:
                if any(x["ev"] == "resp" and x["c"] == c and self.status_key(x["u"]) == k for x in self.cmds):
                    u["ref"] = ""
                else:
                    refd.add(k)
            self.add(ev="resp", c=c, u=u)
        if r.random() < self.opt.get("secp", .2):
            self.addsec(c)

    def meta(self, c):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            f = r.choice(["tags", "summary", "description", "id", "deprecated"])
            if f == "tags":
                v = [r.choice(WORDS) for _ in range(r.randint(0, 3))]
            elif f == "deprecated":
                v = r.random() < .6
            else:
                v = r.choice(["", "text \"q\" <b>", "Summary " + r.choice(WORDS), "caf\u00e9"])
                v = v if v.isascii() else "line\nbreak"
            self.add(ev="set", c=c, f=f, v=tagj(v))

    def addsec(self, c):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            self.add(ev="addsec", c=c, name=r.choice(["basicAuth", "key", "oauth"]),
                     scopes=r.sample(["read", "write", "admin"], r.choice([0, 0, 1, 2])), nil=r.random() < .5)

    def op(self, hook=False, known=None, **kw):
        """A whole registration."""
        c, names, m = self.new(hook=hook, known=known)
        self.setup(c, names, m, **kw)
        self.add(ev="hook" if hook else "add", c=c)
        if not hook:
            self.tried.append(c)

    def readd(self):
        """Offer an accepted context once more, maybe changed."""
        r = self.r
        if self.tried:
            c = r.choice(self.tried)
            if r.random() < .5:
                self.meta(c)
            self.add(ev="add", c=c, again=True)

    def foreign(self):
        """A context of a reflector of the other version."""
        self.add(ev="foreign", m=self.method(), p=self.path(self.names()), again=self.r.random() < .4)

    def later(self):
        """Touch a context after its registration."""
        r = self.r
        if self.tried:
            c = r.choice(self.tried)
            x = r.random()
            if x < .5:
                self.meta(c)
            elif x < .7:
                self.addsec(c)

    def hand_op(self, names):
        r = self.r
        ps = []
        for nm in names:
            if r.random() < .92:
                ps.append({"name": nm, "in": "path"})
        for _ in range(r.choice([0, 0, 1, 2])):
            ps.append({"name": r.choice(WORDS[:3] + list(names) + [nm.upper() for nm in names]), "in": r.choice(["query", "header", "cookie", "query", "path", "ref"])})
        r.shuffle(ps)
        return {"params": ps, "summary": r.choice(["", "Hand " + r.choice(WORDS)]),
                "resps": r.sample(["200", "404", "default", "5XX"], r.choice([0, 1, 2]))}

    def spec_add(self):
        r = self.r
        names = self.names()
        m = self.method() if r.random() < .95 else r.choice(BAD_METHODS)
        self.used.append((m, names))
        self.add(ev="specadd", m=m, p=self.path(names), o=self.hand_op(names))

    def spec_hook(self):
        r = self.r
        m = rand_case(r, r.choice(METHODS)) if r.random() < .93 else r.choice(BAD_METHODS)
        self.add(ev="spechook", m=m, name=r.choice(HOOKS), o=self.hand_op([]))

    def spec_setup(self):
        r = self.r
        names = self.names()
        m = self.method() if r.random() < .95 else r.choice(BAD_METHODS)
        if self.used and r.random() < .6:
            m, names = r.choice(self.used)
            m = rand_case(r, m.lower())
        self.used.append((m, names))
        edits = []
        fails = r.random() < .3
        if r.random() < .5:
            edits.append({"k": "noparams"})
            for nm in names:
                edits.append({"k": "param", "name": nm, "in": "path"})
        for _ in range(r.choice([0, 1, 2])):
            edits.append(r.choice([{"k": "summary", "s": "Edit " + r.choice(WORDS)},
                                   {"k": "param", "name": r.choice(WORDS[:3]), "in": r.choice(["query", "header", "ref"])},
                                   {"k": "param", "name": r.choice(WORDS[:1] + [nm.upper() for nm in names]), "in": "path"}]))
        if fails:
            edits.insert(r.randint(0, len(edits)), {"k": "fail"})
        self.add(ev="specsetup", m=m, p=self.path(names), edits=edits)

    def info(self):
        r = self.r
        self.add(ev="info", f=r.choice(["title", "version", "description"]), v=r.choice(["", "API " + r.choice(WORDS), "1.2.3"]))

    def sec(self):
        r = self.r
        k = r.choice(["basic", "bearer", "apikey"])
        self.add(ev="sec", k=k, name=r.choice(["basicAuth", "key", "oauth"]), desc=r.choice(["", "Desc " + r.choice(WORDS)]),
                 format=r.choice(["", "JWT"]), field=r.choice(["X-Key", "token"]), **{"in": r.choice(["header", "query", "cookie"])})

    def look(self):
        r = self.r
        names = [d["raw"] for d in self.g.named.values() if d["def"]["k"] == "struct"]
        n = r.choice(names)
        x = r.random()
        if x < .6:
            self.add(ev="resolve", ref="#/components/schemas/" + "".join(c for c in n if c not in "[]"))
        else:
            self.add(ev="resolve", ref=r.choice(["", n, "#/components/schemas/", "#/components/schemas/NoSuch", "#/components/responses/" + n,
                                                 "#/components/schemas/x/" + n, "#/components/schemas/" + n + "/x", "#/components/schemas//" + n,
                                                 "components/schemas/" + n, "/components/schemas/" + n, "#/components/schemas/" + n.upper(),
                                                 "x#/components/schemas/" + n, "#/components/schemas/#/components/schemas/" + n]))

    def walk(self):
        r = self.r
        fa = r.choice([0, 0, 0, 1, 2, 3])
        if r.random() < .55:
            u = self.req_unit(None)
            u["prep"] = False
            self.add(ev="walkreq", m=r.choice(["get", "post", "post", "put", "delete", "patch"]), u=u, failat=fa, nodone=r.random() < .1)
        else:
            u = self.resp_unit(set())
            u["prep"] = False
            self.add(ev="walkresp", u=u, failat=fa, nodone=r.random() < .1)

    def export(self):
        names = [d["raw"] for d in self.g.named.values() if d["def"]["k"] == "struct"]
        self.add(ev="export", name="".join(c for c in self.r.choice(names) if c not in "[]"))

    def legacy(self):
        """A registration with the deprecated functions of 3.0."""
        r, g = self.r, self.g
        names = self.names()
        how = r.choice(["set", "setup"])
        m = rand_case(r, r.choice(METHODS[:5] + (["head"] if how == "setup" else [])))
        req = self.unit()
        if names or r.random() < .7:
            req = self.unit(r.choice(self.fitting(names)))
            self.mapping(req, req["g"], names)
        req = self.broken() or req
        resps = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            u = self.unit(r.choice(self.resps) if r.random() < .75 else None, status=r.choice(STATUSES))
            b = self.broken(True)
            if b:
                u = dict(b, status=u["status"])
            elif u["g"]:
                if how == "setup":
                    if r.random() < .3: u["ct"] = r.choice(MIMES + ["application/json; charset=utf-8"])
                    self.headers(u)
            elif r.random() < .75:
                u["ct"] = r.choice(MIMES + ["text/plain"])
            resps.append(u)
        self.add(ev="legacy", m=m, p=self.path(names), req=req, resps=resps, how=how)

    def reload(self):
        """The document is encoded and decoded."""
        self.add(ev="reload", how=self.r.choice(["json", "yaml"]))

    def reflect(self):
        g = self.g
        self.add(ev="reflect", u=self.unit(self.r.choice(g.reqs + g.resps)))

    def scenario(self, sc, **opt):
        return {"sc": sc, "v": opt.pop("v", ["3", "31"]), "opt": opt, "cmds": self.cmds}


def mixed(rng, g, n, weights, **opt):
    """n steps chosen by weight among the builders of Hist."""
    h = Hist(rng, g, **opt)
    ks = list(weights)
    for _ in range(n):
        k = rng.choices(ks, [weights[x] for x in ks])[0]
        if k == "op":
            h.op()
        elif k == "hookop":
            h.op(hook=True)
        else:
            getattr(h, k)()
    return h
