"""What every check does."""
from . import builder, codec, conv, hist, orch, typesgen
from .hist import rand_case as rc


def letters(weights):
    """Alphabet of single steps chosen by weight."""
    def f(rng, g, k, hopt):
        out = []
        while len(out) < k:
            q = hist.mixed(rng, g, 1, weights, **hopt).cmds
            if q:
                out.append(q)
        return out
    return f


def reloaded(c, weights, gens=(1, 6), **kw):
    """Histories in which the document is decoded from its own encoding now and then."""
    c.docs("reload", dict(weights, reload=sum(weights.values()) // 5 + 1), gens=gens, steps=(4, 10), strict=True, **kw)


def c01(c):
    w = {"op": 10, "spec_add": 5, "spec_setup": 4, "hookop": 2, "readd": 2, "later": 2, "legacy": 1}
    c.explore("mc", letters({"op": 6, "spec_add": 4, "spec_setup": 3, "hookop": 1}), hopt={"few": True})
    c.docs("few", w, hopt={"few": True}, steps=(4, 9))
    c.docs("wide", w, gens=(3, 20))
    reloaded(c, w, hopt={"few": True}, gens=(2, 8))


def c02(c):
    c.model("MCPath", {"VH_DEPTH": str(c.pick((5, 7)))})
    r = c.rng("paths")
    alphabets = [(["a", "{", "}", ":", "/"], c.pick((6, 7))), (["{", "}", ":", "a"], c.pick((7, 8))), (["{a}", "{b:", "}", "/", ":c", "{"], c.pick((5, 6)))]
    scs = [{"sc": "all-%d" % i, "chars": a, "len": n, "m": rc(r, r.choice(hist.METHODS))} for i, (a, n) in enumerate(alphabets)]
    items = []
    for m in hist.METHODS:
        items += [[x, "/{id:[0-9]+}"] for x in {m, m.upper(), m.capitalize(), rc(r, m), rc(r, m), m + "s", m[:-1], " " + m, m + " ", m[::-1], "x" + m}]
    scs.append({"sc": "methods", "items": items + [[m, "/a"] for m in ["", "connect", "CONNECT", "any", "get,post", "*"]]})
    items = []
    for _ in range(c.pick((4000, 40000))):
        parts = [r.choice(["/", "/a", "-", ".", "{id}", "{id:[0-9]+}", "{name:\\d{2}}", "{id", "}", ":", "{}", "{:x}", "{a:}", "{a b}", "{x.y:.+}", "{a:b:c}", "{{z}}", "{id}{id}", "{w:{}"])
                 for _ in range(r.randint(0, 7))]
        items.append([rc(r, r.choice(hist.METHODS)), "".join(parts)])
    for i in range(0, len(items), 2000):
        scs.append({"sc": "mix-%d" % i, "items": items[i:i + 2000]})
    w = orch.Work()
    try:
        c.validate(w, "path", "TracePath", scs, {"stage": "paths", "mode": "path", "module": "TracePath"}, chunks=6)
    finally:
        w.close()
    w = {"op": 6, "spec_add": 5, "spec_setup": 3, "spec_hook": 2}
    c.docs("wide", w)


def param_lists(c, n):
    """Hand-made parameter lists: all up to length 2 and many longer ones, for
    several sets of placeholders and through every entry point."""
    r = c.rng("lists")
    ks = [{"name": a, "in": b} for a in ("x", "y") for b in ("path", "query", "header", "cookie")]
    lists = [[]] + [[a] for a in ks] + [[a, b] for a in ks for b in ks]
    for _ in range(n):
        lists.append([r.choice(ks[:3] + ks if r.random() < .5 else ks) for _ in range(r.choice([3, 3, 4, 5, 6]))])
    for _ in range(n // 4):
        l = list(r.choice(lists))
        l.insert(r.randint(0, len(l)), {"name": r.choice("xy"), "in": "ref"})
        lists.append(l)
    cases = [(l, p) for l in lists for p in (["", "/{x}", "/{x}/{y}", "/{y:[a-z]+}/{x}", "/{x}-{x}"] if len(l) < 3 else [r.choice(["/{x}", "/{x}/{y}", "/{y}-{x:.+}"])])]
    r.shuffle(cases)
    scs = []
    for i in range(0, len(cases), 12):
        cmds = []
        for k, (l, p) in enumerate(cases[i:i + 12]):
            m = rc(r, r.choice(hist.METHODS))
            p = "/k%d%s" % (k, p)
            x = r.random()
            if x < .4:
                cmds.append({"ev": "specadd", "m": m, "p": p, "o": {"params": l, "summary": "", "resps": []}})
            elif x < .7:
                cmds.append({"ev": "specsetup", "m": m, "p": p, "edits": [{"k": "param", **q} for q in l]})
            else:
                cmds.append({"ev": "new", "c": "c%d" % k, "m": m, "p": p})
                cmds += [{"ev": "opparam", "c": "c%d" % k, **q} for q in l]
                cmds.append({"ev": "add", "c": "c%d" % k})
        scs.append({"sc": "lists-%d" % i, "v": ["3", "31"], "opt": {}, "cmds": cmds})
    w = orch.Work()
    try:
        c.validate(w, "doc", "TraceDoc", scs, {"stage": "lists"}, chunks=8)
    finally:
        w.close()


def c03(c):
    param_lists(c, c.pick((600, 6000)))
    w = {"op": 10, "spec_add": 6, "spec_setup": 5, "walk": 1}
    c.explore("mc", letters({"op": 6, "spec_add": 3, "spec_setup": 3}), hopt={"few": True})
    c.docs("wide", w)
    reloaded(c, w)


def c04(c):
    w = {"op": 8, "spec_add": 4, "spec_setup": 6, "hookop": 3, "spec_hook": 2, "readd": 2, "legacy": 1, "foreign": 1}
    c.explore("mc", letters({"op": 5, "spec_add": 2, "spec_setup": 4, "hookop": 2, "spec_hook": 1}), hopt={"few": True, "broken": .04})
    c.docs("few", w, hopt={"few": True, "broken": .05}, steps=(4, 9))
    c.docs("wide", w, gens=(3, 20))
    reloaded(c, w, hopt={"few": True, "broken": .05})


def c05(c):
    c.docs("req", {"op": 10, "hookop": 1}, hopt={"meta": .05}, gens=(6, 40), steps=(2, 5), size={"nj": 8, "nreq": 30, "nresp": 3})
    c.docs("untagged", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), steps=(2, 5), size={"nj": 8, "nreq": 20, "nresp": 12}, pwt=9)
    c.docs("inplace", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), n=(60, 150), steps=(2, 4), size={"nj": 3, "nreq": 10, "nresp": 7}, inl=9)


def c06(c):
    c.docs("req", {"op": 10, "hookop": 1}, hopt={"meta": .05}, gens=(6, 40), steps=(2, 5), size={"nj": 8, "nreq": 30, "nresp": 3})
    c.docs("untagged", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), steps=(2, 5), size={"nj": 8, "nreq": 20, "nresp": 12}, pwt=9)
    c.docs("inplace", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), n=(60, 150), steps=(2, 4), size={"nj": 3, "nreq": 10, "nresp": 7}, inl=9)


def c07(c):
    c.docs("resp", {"op": 10, "hookop": 1}, hopt={"meta": .05}, gens=(6, 40), steps=(2, 5), size={"nj": 8, "nreq": 8, "nresp": 26})
    c.docs("untagged", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), steps=(2, 5), size={"nj": 8, "nreq": 20, "nresp": 12}, pwt=9)
    c.docs("inplace", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), n=(60, 150), steps=(2, 4), size={"nj": 3, "nreq": 10, "nresp": 7}, inl=9)


def c08(c):
    c.explore("mc", letters({"op": 6, "hookop": 2, "walk": 1, "spec_add": 1}))
    c.docs("wide", {"op": 10, "hookop": 3, "walk": 2, "export": 1, "reflect": 1}, gens=(4, 30), size={"nj": 16, "nreq": 16, "nresp": 12})
    c.docs("renamed", {"op": 10, "hookop": 3, "walk": 2}, gens=(1, 6), size={"nj": 12, "nreq": 14, "nresp": 12}, ren="My/Pre\u00e9 ")
    c.docs("inplace", {"op": 10, "hookop": 1, "walk": 1}, gens=(1, 6), n=(60, 150), steps=(2, 4), size={"nj": 3, "nreq": 10, "nresp": 7}, inl=9)


def c09(c):
    c.explore("mc", letters({"op": 8, "hookop": 2, "walk": 2}))
    c.docs("wide", {"op": 10, "hookop": 3, "walk": 3, "reflect": 1}, gens=(4, 30), size={"nj": 16, "nreq": 16, "nresp": 12})
    reloaded(c, {"op": 10, "hookop": 3, "walk": 3, "reflect": 1})


def c10(c):
    w = {"op": 10, "info": 1, "sec": 1, "spec_add": 2, "spec_setup": 1}
    c.docs("pair", w, {"pair": True}, gens=(4, 30))


def objects(c, depth, n, faults=0.0, spec=.2, yaml=False):
    """Objects of documents: those of the model and random deeper ones."""
    out = c.model("MCCodec", {"VH_DEPTH": str(c.pick(depth))}, workers=8)
    kinds = orch.prints(out, "@K")[0]
    at = {"mode": "codec", "module": "TraceCodec"}
    w = orch.Work()
    try:
        if not yaml:
            c.validate(w, "codec", "TraceCodec", codec.of_model(orch.prints(out, "@%")), {"stage": "mc", **at}, chunks=8)
        scs = codec.scenarios(c.rng("objects"), kinds, c.pick(n), faults=faults, spec=spec, yaml=yaml)
        c.validate(w, "codec", "TraceCodec", scs, {"stage": "objects", **at}, chunks=8)
    finally:
        w.close()


def c11(c):
    objects(c, (1, 2), (300, 6000))
    w = {"op": 10, "hookop": 2, "spec_add": 1, "spec_hook": 1, "info": 2, "sec": 3, "later": 1}
    c.docs("codec", w, {"codec": True})
    reloaded(c, w, opts={"codec": True})


def c12(c):
    objects(c, (1, 1), (300, 6000), spec=1, yaml=True)
    w = {"op": 10, "hookop": 2, "spec_add": 1, "spec_hook": 1, "info": 2, "sec": 3, "later": 1}
    c.docs("codec", w, {"codec": True})
    reloaded(c, w, opts={"codec": True})


def c13(c):
    objects(c, (1, 2), (600, 9000), faults=.5)


def convs(c, parts):
    """Schemas made by hand: parts are (kind, scenarios, dangling references)."""
    w = orch.Work()
    try:
        for kind, n, dangling in parts:
            scs = conv.scenarios(c.rng("convs", kind, dangling), kind, n, dangling=dangling)
            c.validate(w, "conv", "TraceConv", scs, {"stage": "%s%d" % (kind, dangling * 10), "mode": "conv", "module": "TraceConv"}, chunks=8)
    finally:
        w.close()


def c14(c):
    depth = c.pick((2, 3))
    out = c.model("MCConv", {"VH_DEPTH": str(depth)}, workers=8)
    scs = conv.of_model(orch.prints(out, "@%"))
    w = orch.Work()
    try:
        c.validate(w, "conv", "TraceConv", scs, {"stage": "mc", "mode": "conv", "module": "TraceConv"}, chunks=8)
    finally:
        w.close()
    convs(c, [("conv", c.pick((150, 2500)), 0), ("conv", c.pick((50, 600)), .2), ("oas", c.pick((120, 2000)), 0), ("oas", c.pick((20, 300)), .2)])


def c15(c):
    c.docs("walk", {"op": 2, "walk": 10, "hookop": 1}, gens=(5, 40), steps=(3, 8), hopt={"broken": .06})


def c16(c):
    c.explore("mc", letters({"sec": 8, "op": 2, "spec_add": 1}), hopt={"secp": .9, "few": True})
    c.docs("sec", {"sec": 8, "op": 6, "hookop": 2, "readd": 1, "later": 2, "info": 1}, hopt={"secp": .8}, steps=(3, 9))
    reloaded(c, {"sec": 8, "op": 6, "hookop": 2, "readd": 1, "later": 2, "info": 1}, hopt={"secp": .8})


def programs(rng, g, n, steps, weights):
    """Histories as steps of a process, each one event."""
    ps = []
    for i in range(n):
        v = rng.choice(["3", "31"])
        q = hist.mixed(rng, g, rng.randint(*steps), weights, few=rng.random() < .5).cmds
        ps.append({"v": v, "q": [dict(e, failat=0) if "failat" in e else e for e in q]})
    return ps


def conc(ps, **opt):
    return [{"sc": "p%d" % i, "v": [p["v"]], "opt": opt, "cmds": p["q"]} for i, p in enumerate(ps)]


def c17(c):
    w = {"op": 8, "hookop": 2, "walk": 3, "reflect": 1, "spec_add": 2, "spec_setup": 2, "spec_hook": 1, "sec": 2, "info": 2, "export": 2, "look": 1, "later": 2}
    at = {"mode": "conc", "module": "TraceConc", "race": True}

    def one(i):
        def f():
            key = ["conc", i]
            gp = {"nj": 8, "nreq": 12, "nresp": 10}
            g = typesgen.Gen(c.rng("types", *key), **gp)
            r = c.rng("progs", *key)
            k = orch.Work(g, race=True)
            try:
                scs = []
                # All interleavings of short programs.
                for j in range(c.pick((2, 8))):
                    ps = programs(r, g, r.choice([2, 3]), (1, 2), w)
                    for p in ps:
                        p["q"] = p["q"][:3 if len(ps) == 3 else c.pick((5, 6))]
                    for x, s in enumerate(c.histories_of(k, ps, "%d" % j)):
                        scs.append({"sc": "all-%d-%d-%d" % (i, j, x), "parts": conc(ps), "sched": [p - 1 for p in s], "readers": 0, "seed": 1})
                # Changes of process inside of steps, too.
                for j in range(c.pick((60, 300))):
                    ps = programs(r, g, r.choice([2, 2, 3, 4]), (1, 4), w)
                    many = r.choice([1, 1, 3, 10])
                    sched = []
                    while len(sched) < 400:
                        sched += [r.randrange(len(ps))] * r.randint(1, many)
                    scs.append({"sc": "inner-%d-%d" % (i, j), "parts": conc(ps, hooks=True), "sched": sched, "readers": 0, "seed": 1})
                # Running freely, with readers of the finished documents.
                for j in range(c.pick((40, 200))):
                    ps = programs(r, g, r.choice([2, 4, 8]), (2, 6), w)
                    if r.random() < .4:
                        ps = [ps[0]] * len(ps)
                    scs.append({"sc": "free-%d-%d" % (i, j), "parts": conc(ps), "sched": [], "readers": r.choice([0, 2, 6]), "seed": r.randrange(1 << 30)})
                r.shuffle(scs)
                c.validate(k, "conc", "TraceConc", scs, {"stage": "conc", "key": key, "gen": gp, **at}, chunks=4)
            finally:
                k.close()
        return f
    orch.pool([one(i) for i in range(c.pick((2, 8)))], 2)


def c18(c):
    w = orch.Work()
    try:
        table = w.run("builder", [{"sc": "table", "table": True}], "table")
        env = {"VH_TABLE": table}
        out = c.model("MCBuilder", {"VH_DEPTH": str(c.pick((2, 3))), **env}, workers=8)
        scs = builder.of_model(c.rng("mc"), orch.prints(out, "@%"))
        at = {"mode": "builder", "module": "TraceBuilder"}
        c.validate(w, "builder", "TraceBuilder", scs, {"stage": "mc", **at}, chunks=c.pick((8, 48)), env=env)
        scs = builder.scenarios(c.rng("random"), builder.read(table), c.pick((3000, 60000)), (3, 15))
        c.validate(w, "builder", "TraceBuilder", scs, {"stage": "random", **at}, chunks=c.pick((8, 24)), env=env)
    finally:
        w.close()


def c19(c):
    c.explore("mc", letters({"hookop": 6, "spec_hook": 4, "op": 3}), versions=("31",))
    c.docs("hooks", {"hookop": 10, "spec_hook": 6, "op": 4, "spec_add": 2, "spec_setup": 1}, v=["31"], steps=(4, 9), gens=(4, 30), hopt={"broken": .04})
    reloaded(c, {"hookop": 10, "spec_hook": 6, "op": 4, "spec_add": 2, "spec_setup": 1}, v=["31"])


def c20(c):
    w = {"op": 10, "hookop": 3, "later": 5, "info": 4, "readd": 2}
    c.docs("meta", w, hopt={"meta": .95, "secp": .5}, steps=(3, 8), gens=(4, 30))
    reloaded(c, w, hopt={"meta": .95, "secp": .5})


def c21(c):
    c.docs("legacy", {"legacy": 10, "op": 2}, v=["3"], gens=(5, 40), n=(140, 260), steps=(2, 6), hopt={"broken": .06})


def c22(c):
    w = {"op": 10, "hookop": 3, "walk": 4, "reflect": 2, "spec_add": 1, "legacy": 2}
    c.docs("hooks", w, {"hooks": True}, gens=(4, 30))


def c23(c):
    w = {"op": 10, "hookop": 3, "spec_add": 3, "spec_hook": 1, "spec_setup": 1, "info": 1, "sec": 3, "walk": 1, "later": 1}
    c.docs("reps", w, {"reps": 4}, gens=(4, 30), n=(60, 150), steps=(3, 8), hopt={"meta": .6, "secp": .5})


def c24(c):
    w = {"op": 8, "export": 8, "look": 3, "hookop": 1}
    convs(c, [("conv", c.pick((60, 900)), 0), ("oas", c.pick((60, 900)), 0), ("oas", c.pick((20, 300)), .2), ("export31", c.pick((80, 1500)), 0), ("export31", c.pick((20, 300)), .2)])
    c.explore("mc", letters({"op": 5, "export": 3, "look": 2}), gens=(3, 6))
    c.docs("export", w, gens=(4, 30), steps=(4, 9), size={"nj": 16, "nreq": 10, "nresp": 8})
    reloaded(c, w, size={"nj": 16, "nreq": 10, "nresp": 8})


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24}
