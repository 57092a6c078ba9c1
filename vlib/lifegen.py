"""Concrete scenarios for the life cycle family from abstract ones (spec/LifeGen.tla)."""
import random
from . import tlc


def concretise(script, gen, rng, idx):
    steps = []
    for st in script["steps"]:
        s = dict(st)
        if st["op"] == "yield":
            s["n"] = rng.randrange(1, 20)
        elif st["op"] == "sleep":
            s["ms"] = rng.choice([1, 2, 5])
        elif st["op"] == "flood":
            s["n"] = rng.choice([1, 5, 20, 60])
        elif st["op"] == "exhaust":
            s["n"] = rng.choice([1, 2, 3])
        elif st["op"] == "race":
            s["n"] = rng.choice([2, 3, 4])
        steps.append(s)
    return dict(fam="life", cfg=dict(max=rng.choice([1, 2]), buf=rng.choice([1, 100]), tasks=rng.choice([0, 1, 4]), test=rng.random() < 0.3),
                steps=steps, mt=rng.choice(gen.get("mt", [0, 0, 2, 4])), **{"def": dict(nch=script["nch"], na=script["na"])})


def build(profile, num, seed, big=0):
    scripts = tlc.generate("LifeGen", dict(profile), num, profile["steps"] + 10, seed)
    rng = random.Random(seed * 7919 + 31)
    return [concretise(s, profile, rng, i) for i, s in enumerate(scripts)]
