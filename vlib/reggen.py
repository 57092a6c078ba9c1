"""Concrete scenarios for the registration family from abstract ones (spec/RegGen.tla)."""
import random
from . import tlc

# groups of names which are close to each other
SVCS = [["", "a", "ab"], ["a", "A", "ab"], ["svc", "svc ", " svc"], ["\u00e9", "e\u0301", "e"], ["s" * 254, "s" * 255, "s"], ["a", "a/b", "a:"],
        ["x", "x\u0000", "\u0000x"], ["\u6f22", "\u6f23", "\u00df"], ["ep", "svc", "*"], ["Stra\u00dfe", "STRASSE", "strasse"]]
EPS = [["", "a", "b"], ["b", "bc", "c"], ["ep", "Ep", "EP"], ["ep", "ep ", "ep\u0000"], ["\u00e9", "e\u0301", "E\u0301"], ["a/b", "b", "/b"],
       ["e" * 300, "e" * 301, "e" * 299], [{"len": 66000, "seed": 1}, {"len": 66001, "seed": 1}, "x"], ["b::c", "::c", "c"], ["svc", "ep", "svcep"], ["\ufeffep", "ep", "ep\n"]]


def concretise(script, gen, rng, idx):
    svcs = rng.choice(SVCS)
    eps = rng.choice(EPS) if rng.randrange(3) else rng.choice([["a", "b", "ab"], ["b", "", "bb"]])
    pairs = [(x, y) for x in range(3) for y in range(3)]
    rng.shuffle(pairs)
    keys = [dict(s=x + 1, svc=svcs[x], ep=eps[y], json=rng.randrange(3) == 0) for x, y in pairs[:script["nkey"]]]
    steps = []
    busy = rng.random() < gen.get("busy", 0.4)
    burn = rng.choice([126, 127, 125, 124, 123, 120])
    for st in script["steps"]:
        s = dict(st)
        if st["op"] in ("reg", "unreg", "call", "sub"):
            if busy:
                s["burn"] = burn if rng.randrange(2) else rng.randrange(115, 128)
        if st["op"] == "reg":
            s["sync"] = rng.randrange(3) == 0
        elif st["op"] == "call":
            s["c"] = rng.randrange(2)
            s["pad"] = rng.choice([0, 0, 0, 10, 70000])
        elif st["op"] == "yield":
            s["n"] = rng.randrange(1, 30)
        elif st["op"] == "sleep":
            s["ms"] = rng.choice([1, 2])
        steps.append(s)
    return dict(fam="reg", cfg=dict(max=rng.choice([1, 2]), buf=rng.choice([1, 2, 100]), tasks=0, test=rng.random() < 0.2),
                keys=keys, svcs=svcs, steps=steps, mt=rng.choice(gen.get("mt", [0, 0, 2, 4])),
                **{"def": dict(nkey=script["nkey"], nsvc=3, nop=script["nop"], nh=script["nh"])})


def build(profile, num, seed, big=0):
    scripts = tlc.generate("RegGen", dict(profile), num, profile["steps"] + 10, seed)
    rng = random.Random(seed * 7919 + 37)
    return [concretise(s, profile, rng, i) for i, s in enumerate(scripts)]
