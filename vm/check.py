"""A check of one property: stages, counters, findings, evidence."""
import json
import os
import random
import threading
import time

from . import hist, orch, typesgen

VERIF = orch.VERIF
SLOTS = threading.Semaphore(8)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.bad = []            # mismatches
        self.cnt = {}            # counters over all traces
        self.mc = {"states": 0, "transitions": 0, "runs": 0}
        self.samples = []
        self.notes = []
        self.known = []          # known findings that showed up
        self.lock = threading.Lock()
        self.thorough = tier == "thorough"

    def pick(self, pair):
        return pair[1] if self.thorough else pair[0]

    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, key))))

    def count(self, c):
        with self.lock:
            for k, v in c.items():
                self.cnt[k] = self.cnt.get(k, 0) + v

    def found(self, bad, origin):
        with self.lock:
            for b in bad:
                b["origin"] = origin
                self.bad.append(b)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 4:
                self.samples.append(s)

    # -- traces of the library through the specification ------------------------
    def validate(self, work, mode, module, scenarios, origin, chunks=4, prop=None, env=None):
        """Runs scenarios and validates their traces, chunk by chunk."""
        def job(i, part):
            def f():
                with SLOTS:
                    bad, cnt = orch.conform(work, mode, module, prop or self.prop, part,
                                            tag="%s%d" % (origin["stage"].replace("/", "_"), i), chunks=1, env=env)
                self.count(cnt)
                self.found(bad, origin)
            return f
        if scenarios:
            self.sample({"stage": origin["stage"], "scenario": shorten(scenarios[len(scenarios) // 2])})
            orch.pool([job(i, p) for i, p in enumerate(orch.spread(scenarios, chunks))])

    # -- stages ------------------------------------------------------------------
    def docs(self, stage, weights, opts=None, gens=(4, 30), n=(100, 200), steps=(2, 7), size=None, hopt=None, v=None, pwt=0, inl=0, ren="", strict=False):
        """Random histories over random types."""
        opts = dict(opts or {})
        if v:
            opts["v"] = v

        def one(i):
            def f():
                gp = dict(size or {}, strict=strict or bool(opts.get("codec")), dense=[1, 4, 2][i % 3], pwt=pwt > i, inl=inl > i, ren=ren if i % 2 == 0 else "")
                key = [stage, i]
                g = typesgen.Gen(self.rng("types", *key), **gp)
                rng = self.rng("hist", *key)
                w = orch.Work(g)
                try:
                    scs = []
                    for k in range(self.pick(n)):
                        h = hist.mixed(rng, g, rng.randint(*steps), weights, **(hopt or {}))
                        scs.append(h.scenario("%s-%d-%d" % (stage, i, k), **dict(opts)))
                    self.validate(w, "doc", "TraceDoc", scs, {"stage": stage, "key": key, "gen": gp}, chunks=3 if self.thorough else max(1, 8 // self.pick(gens)))
                finally:
                    w.close()
            return f
        orch.pool([one(i) for i in range(self.pick(gens))], 4)

    def explore(self, stage, alphabet, depth=(3, 4), letters=(10, 14), size=None, hopt=None, opts=None, gens=(3, 6), versions=("3", "31")):
        """All histories over a random alphabet of calls, first on the
        specification, then replayed on the library."""
        opts = dict(opts or {})

        def one(i):
            def f():
                gp = dict(size or {"nj": 5, "nreq": 8, "nresp": 5}, strict=bool(opts.get("codec")))
                key = [stage, i]
                g = typesgen.Gen(self.rng("types", *key), **gp)
                rng = self.rng("hist", *key)
                abc = alphabet(rng, g, self.pick(letters), hopt or {})
                w = orch.Work(g)
                try:
                    scs = []

                    def mc(v):
                        def f():
                            with SLOTS:
                                return v, self.histories(w, v, abc, self.pick(depth))
                        return f
                    for v, hs in orch.pool([mc(v) for v in versions]):
                        for k, h in enumerate(hs):
                            cmds = []
                            for pos, j in enumerate(h):
                                for c in abc[j - 1]:
                                    c = dict(c)
                                    if "c" in c:
                                        c["c"] = "k%d%s" % (pos, c["c"])
                                    cmds.append(c)
                            scs.append({"sc": "%s-%d-%s-%s" % (stage, i, v, "_".join(map(str, h))), "v": [v], "opt": opts, "cmds": cmds})
                    self.validate(w, "doc", "TraceDoc", scs, {"stage": stage, "key": key, "gen": gp}, chunks=8)
                finally:
                    w.close()
            return f
        orch.pool([one(i) for i in range(self.pick(gens))], 2)

    def histories(self, w, v, abc, depth):
        """Longest histories that together take every transition of MCDoc."""
        cf = os.path.join(w.dir, "abc-%s.ndjson" % v)
        with open(cf, "w") as f:
            for q in abc:
                f.write(json.dumps({"q": q}) + "\n")
        rc, out = w.tlc("MCDoc", {"VH_CMDS": cf, "VH_DEPTH": str(depth), "VH_V": v}, timeout=800)
        st = orch.states(out)
        if rc != 0 or st is None:
            raise orch.Infra("model checking of MCDoc failed (%d):\n%s" % (rc, out[-3000:]))
        hs = orch.prints(out, "@%")
        with self.lock:
            self.mc["states"] += st[1]
            self.mc["transitions"] += st[0]
            self.mc["runs"] += 1
        pre = set()
        for h in hs:
            for k in range(1, len(h)):
                pre.add(tuple(h[:k]))
        return [h for h in hs if tuple(h) not in pre]

    def histories_of(self, w, programs, tag):
        """All schedules of programs, from MCConc."""
        cf = os.path.join(w.dir, "progs-%s.ndjson" % tag)
        with open(cf, "w") as f:
            for p in programs:
                f.write(json.dumps(p) + "\n")
        with SLOTS:
            rc, out = w.tlc("MCConc", {"VH_CMDS": cf}, timeout=800)
        st = orch.states(out)
        if rc != 0 or st is None:
            raise orch.Infra("model checking of MCConc failed (%d):\n%s" % (rc, out[-3000:]))
        with self.lock:
            self.mc["states"] += st[1]
            self.mc["transitions"] += st[0]
            self.mc["runs"] += 1
        return orch.prints(out, "@%")

    def model(self, module, env=None, workers=4, timeout=800):
        """Checks a model on its own; returns its output."""
        w = orch.Scratch()
        try:
            with SLOTS:
                rc, out = w.tlc(module, dict(env or {}), workers=workers, timeout=timeout)
        finally:
            w.close()
        st = orch.states(out)
        if rc != 0 or st is None:
            raise orch.Infra("model checking of %s failed (%d):\n%s" % (module, rc, out[-3000:]))
        with self.lock:
            self.mc["states"] += st[1]
            self.mc["transitions"] += st[0]
            self.mc["runs"] += 1
        return out

    # -- results -------------------------------------------------------------------
    def finish(self):
        nv = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for k, b in enumerate(self.bad[:3]):
            p = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, k))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, **b}, f, indent=1)
            d = b["diffs"][0] if b["diffs"] else {}
            print("  %s %s v=%s step %s %s: %s %s" % (b["origin"].get("stage"), b["sc"], b["v"], b["n"], b["ev"], d.get("aspect"), d.get("at")))
            print("    expected %s" % str(d.get("expected"))[:600])
            print("    observed %s %s" % (str(d.get("observed"))[:600], d.get("note", "")))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            nv += 1
        for kf in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.mc["states"] + self.cnt.get("states", 0),
                "transitions": self.mc["transitions"] + self.cnt.get("lines", 0),
                "traces_validated_against_impl": self.cnt.get("scen", 0),
                "samples": self.samples,
                "model_states": self.mc["states"], "model_transitions": self.mc["transitions"], "model_runs": self.mc["runs"],
                "trace_events": self.cnt.get("lines", 0),
                "counters": self.cnt,
                "known_findings_seen": self.known,
            },
            "assumptions": self.notes,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.bad),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d traces, %d events, %d model states, %d mismatches, %.1f s" % (
            self.prop, self.tier, self.cnt.get("scen", 0), self.cnt.get("lines", 0), self.mc["states"], len(self.bad), time.time() - self.t0))
        return 1 if self.bad else 0


def shorten(s):
    t = json.dumps(s)
    return s if len(t) < 3000 else t[:3000] + "..."
