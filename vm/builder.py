"""Sequences of builder calls."""
import json


def of_model(rng, histories):
    """Scenarios for sequences printed by MCBuilder, from the empty and from a populated structure."""
    scs = []
    for i, h in enumerate(histories):
        for init in (0, rng.randrange(1, 1 << 40)):
            scs.append({"sc": "mc-%d-%d" % (i, init), "type": h["type"], "init": init,
                        "calls": [{"m": x["m"], "key": x["key"], "seed": rng.randrange(1, 1 << 40)} for x in h["h"]]})
    return scs


def scenarios(rng, table, n, length):
    """Longer random sequences; structures with many methods more often."""
    scs = []
    for i in range(n):
        t = rng.choices(table, [len(t["methods"]) for t in table])[0]
        # Repetitions on few members and mixtures of many.
        ms = t["methods"] if rng.random() < .5 else rng.sample(t["methods"], min(len(t["methods"]), 5))
        calls = []
        for _ in range(rng.randint(*length)):
            m = rng.choice(ms)
            key = rng.choice(["a", "b", "A", "", "x-a", "x-b", "get", "GET", "post", "200", "404", "default", "/a", "/a/{b}", "k"]) if m.endswith("Item") or m == "WithOperation" else ""
            calls.append({"m": m, "key": key, "seed": rng.randrange(1, 1 << 40)})
        scs.append({"sc": "random-%d" % i, "type": t["type"], "init": rng.choice([0, rng.randrange(1, 1 << 40)]), "calls": calls})
    return scs


def read(path):
    return [json.loads(ln) for ln in open(path)]
