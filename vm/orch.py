"""Running scenarios on the library and validating the traces with TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check itself could not work."""


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off")
    env.setdefault("GOCACHE", "/root/.cache/go-build" if os.access("/root/.cache/go-build", os.W_OK) else "/tmp/vh-gocache")
    env.setdefault("HOME", "/root")
    return env


class Scratch:
    """Scratch directory with a copy of the specification."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vh-")
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.types = os.path.join(self.dir, "types.ndjson")
        with open(self.types, "w") as f:
            f.write("{}\n{\"pwt\": false, \"inl\": false, \"ren\": \"\"}\n")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, env, cfg=None, workers=1, timeout=800, heap="3g", args=(), quick=True):
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.dir)
        e = dict(os.environ)
        e.update(env)
        e["VH_TYPES"] = self.types
        cmd = ["java", "-XX:+UseSerialGC", *(["-XX:TieredStopAtLevel=1"] if quick else ["-XX:CICompilerCount=2"]), "-Xss32m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
               "-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC did not finish: " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr


class Work(Scratch):
    """Scratch directory with the built harness, too."""

    def __init__(self, types=None, race=False):
        super().__init__()
        self.src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(VERIF, "harness"), self.src)
        if types is not None:
            with open(os.path.join(self.src, "types_gen.go"), "w") as f:
                f.write(types.source())
            with open(self.types, "w") as f:
                f.write(types.table() + "\n")
        if REPO != "/repo":
            p = os.path.join(self.src, "go.mod")
            s = open(p).read()
            open(p, "w").write(s.replace("=> /repo", "=> " + REPO))
        self.bin = os.path.join(self.dir, "vh")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", self.bin, "."]
        p = subprocess.run(cmd, cwd=self.src, env=go_env(), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise Infra("harness does not build:\n" + p.stdout + p.stderr)

    # -- harness -------------------------------------------------------------
    def run(self, mode, scenarios, tag, limit=30):
        """Runs scenarios, returns the trace file."""
        sf = os.path.join(self.dir, tag + ".scen")
        tf = os.path.join(self.dir, tag + ".trace")
        with open(sf, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s) + "\n")
        open(tf, "w").close()
        skip = 0
        crashes = 0
        while True:
            rc, err = self._vh(mode, sf, tf, skip, limit)
            if rc == 0:
                return tf
            at = int(open(tf + ".at").read())
            if rc == 2 and "scenario:" in err:
                raise Infra("harness: " + err[-2000:])
            if "DATA RACE" in err or "fatal error: concurrent" in err:
                with open(tf, "a") as f:
                    f.write(json.dumps({"ev": "crash", "n": 0, "pan": race(err)}) + "\n")
                return tf
            # Once more, alone.
            alone = tf + ".alone"
            if os.path.exists(alone):
                os.remove(alone)
            open(alone, "w").close()
            rc2, err2 = self._vh(mode, sf, alone, at, limit, at)
            cut(tf, scenarios[at]["sc"])
            if rc2 == 0:
                with open(tf, "a") as f:
                    f.write(open(alone).read())
            else:
                crashes += 1
                with open(tf, "a") as f:
                    f.write(json.dumps({"ev": "begin", "sc": scenarios[at]["sc"], "v": "3", "opt": {}}) + "\n")
                    f.write(json.dumps({"ev": "crash", "n": 0, "pan": reason(rc2, err2)}) + "\n")
                if crashes > 1:
                    return tf
            skip = at + 1
            if skip >= len(scenarios):
                return tf

    def _vh(self, mode, sf, tf, skip, limit, only=-1):
        env = go_env()
        env["VH_LIMIT"] = str(limit)
        env["GORACE"] = "halt_on_error=1"
        p = subprocess.run([self.bin, mode, sf, tf, str(skip), str(only)], env=env, capture_output=True, text=True, errors="replace",
                           timeout=3000)
        if env.get("VH_STACK"):
            sys.stderr.write(p.stderr)
        return p.returncode, p.stderr


def race(err):
    """Where a race was found, without addresses."""
    fs = re.findall(r"^  ([\w./-]+(?:\.\(?\*?\w+\)?)*\.\w+)\(", err, re.M)
    return "data race: " + ", ".join(f.split("/")[-1] for f in fs[:6])


def reason(rc, err):
    if rc == 97:
        return "does not finish"
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: .*|WARNING: DATA RACE)$", err, re.M)
    return (m.group(1) if m else "process died: " + err[-300:]).encode("ascii", "replace").decode()


def cut(tf, sc):
    """Drops the unfinished events of a scenario from the end of a trace."""
    lines = open(tf).read().split("\n")
    keep = []
    for ln in lines:
        if ln == "":
            continue
        try:
            e = json.loads(ln)
        except ValueError:
            break
        if e.get("ev") == "begin" and e.get("sc") == sc:
            break
        keep.append(ln)
    with open(tf, "w") as f:
        f.write("".join(k + "\n" for k in keep))


def markers(out):
    ms, cnt = [], None
    for ln in out.split("\n"):
        if ln.startswith('"@@') or ln.startswith('"@#'):
            try:
                s = json.loads(ln)
            except ValueError:
                s = ln[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            d = json.loads(s[2:])
            if s.startswith("@@"):
                ms.append(d)
            else:
                cnt = d
    return ms, cnt


def prints(out, mark):
    """JSON values printed by a specification after the mark."""
    res = []
    for ln in out.split("\n"):
        if ln.startswith('"' + mark):
            res.append(json.loads(json.loads(ln)[len(mark):]))
    return res


def states(out):
    """States generated and distinct states of a TLC run that found no error."""
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    return (int(m.group(1)), int(m.group(2))) if m and "No error has been found" in out else None


def validate(work, module, trace, prop, env=None, timeout=800):
    """Validates a trace; returns mismatches and counters."""
    e = {"VH_TRACE": trace, "VH_PROP": prop}
    e.update(env or {})
    rc, out = work.tlc(module, e, timeout=timeout)
    ms, cnt = markers(out)
    if cnt is None or rc != 0 or "Postcondition" in out and "violated" in out:
        raise Infra("TLC on %s failed (%d):\n%s" % (module, rc, out[-3000:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    cnt["states"] = int(m.group(2)) if m else 0
    return ms, cnt


def spread(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


def pool(jobs, n=8):
    """Runs callables concurrently, returns results in order."""
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def scenario_at(trace, line):
    """Name of the scenario and version a 1-based line of a trace belongs to."""
    sc, v = None, None
    with open(trace) as f:
        for i, ln in enumerate(f, 1):
            if i > line:
                break
            if '"ev":"begin"' in ln or '"ev": "begin"' in ln:
                e = json.loads(ln)
                sc, v = e.get("sc"), e.get("v")
    return sc, v


def conform(work, mode, module, prop, scenarios, tag="t", chunks=8, env=None, limit=30):
    """Runs scenarios on the library and the traces through the specification.

    Returns mismatches [{scenario, v, n, diffs}] and summed counters."""
    if not scenarios:
        return [], {}

    def job(i, part):
        def f():
            tf = work.run(mode, part, "%s%d" % (tag, i), limit)
            ms, cnt = validate(work, module, tf, prop, env)
            bad = []
            byname = {s["sc"]: s for s in part}
            for m in ms:
                sc, v = scenario_at(tf, m["l"])
                bad.append({"scenario": byname.get(sc), "sc": sc, "v": v, "n": m.get("n"), "ev": m.get("ev"), "diffs": m["diffs"]})
            cnt["lines"] = sum(1 for _ in open(tf))
            os.remove(tf)
            return bad, cnt
        return f

    res = pool([job(i, p) for i, p in enumerate(spread(scenarios, chunks))])
    bad, total = [], {}
    for b, c in res:
        bad += b
        for k, v in c.items():
            total[k] = total.get(k, 0) + v
    return bad, total
