#!/usr/bin/env python3
"""trybug.py [-a] [ID...]: runs the check of each seeded bug's property (or with
-a every check) on a scratch copy with the bug; prints what it says."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    ids = args or sorted(os.listdir(ROOT + "/seeded"))
    par = int(os.environ.get("PAR", "2"))
    with cf.ThreadPoolExecutor(par) as ex:
        for line in ex.map(one, ids):
            print(line, flush=True)

def one(i):
    t = tempfile.mkdtemp(prefix="try-")
    try:
        d, v = t + "/repo", t + "/verif"
        shutil.copytree("/repo", d)
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
        sd = ROOT + "/seeded/" + i
        p = subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=d, capture_output=True, text=True)
        if p.returncode: return "%s: patch does not apply %s" % (i, p.stderr)
        prop = json.load(open(sd + "/meta.json"))["property"]
        props = [prop]
        if "-a" in sys.argv:
            from vm import props as P
            props = sorted(P.CHECKS)
        res = []
        for q in props:
            p = subprocess.run([sys.executable, v + "/run.py", q, "quick"], cwd=v, capture_output=True, text=True,
                               env=dict(os.environ, VH_REPO=d))
            if p.returncode == 1: res.append(q + (" CAUGHT" if "VIOLATION property=" + q in p.stdout else " no line"))
            elif p.returncode == 0: res.append(q + " missed" if len(props) == 1 else "")
            else: res.append(q + " rc=%d %s" % (p.returncode, p.stdout[-300:]))
        info = [x for x in p.stdout.split("\n") if x.startswith("  ")][:3] if len(props) == 1 else []
        return "%s (%s): %s\n%s" % (i, prop, " ".join(r for r in res if r), "\n".join(x[:250] for x in info))
    finally:
        shutil.rmtree(t)

main()
