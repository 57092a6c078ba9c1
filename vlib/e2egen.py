"""Concrete scenarios for the end-to-end family from abstract ones (spec/E2EGen.tla)."""
import random
from . import tlc
from .srvgen import Services, aligned_lengths, ep_len, out_def, room_first, sig


def concretise(script, gen, rng, idx, big=0.5):
    ns, nh = script["ns"], script["nh"]
    # endpoints of one server are distinct; those of different servers may be equal
    handlers = [None] * nh
    for s in range(1, ns + 1):
        hs = [h for h in range(1, nh + 1) if 1 + h % ns == s]
        sv = Services(rng, [dict(sync=rng.randrange(4) == 0, json=rng.randrange(3) == 0) for _ in hs])
        for h, d in zip(hs, sv.handlers):
            handlers[h - 1] = dict(d, s=s)
    # clients share connections if they share a channel, so "own" needs one for each
    proxy = rng.random() < gen.get("proxy", 0.5)
    calls, steps = [], []

    def new_call(st):
        h = handlers[st["h"] - 1]
        js = h["json"]
        if rng.random() < big:
            l2, l3 = aligned_lengths(rng, room_first("req", h["svc"], "json" if js else "raw"), ep_len(h["ep"]), exact_json=js)
        elif js:
            l2, l3 = rng.choice([2, 9, 40, 300]), rng.choice([2, 8 + rng.randrange(9), 30 + rng.randrange(9), 500])
        else:
            l2, l3 = rng.choice([0, 0, 1, 5, 50]), rng.choice([0, 0, 1, 9, 3000])
        q = dict(svc=h["svc"], ep=h["ep"], l2=l2, l3=l3, seed=rng.randrange(1 << 30), json=js)
        huge = lambda: rng.choice([1 << 20, 4 << 20, 17 << 20]) + rng.randrange(-9, 9) if rng.randrange(1500) == 0 else None
        q["l3"] = huge() or q["l3"]
        while any(sig(q) == sig(x) for x in calls):
            q["l3"] += 17
        kind = rng.choice(["ok", "ok", "ok", "ok", "msg", "gen", "int"])
        q["out"] = out_def(rng, kind, js, h["svc"], rng.random() < big)
        q["out"]["l3"] = huge() or q["out"]["l3"]
        if rng.randrange(3) and q["out"]["ep"] in ("res", "r" * 300):
            q["out"]["ep"] = h["ep"] if isinstance(h["ep"], str) else "res"
        while any(sig(q["out"]) == sig(x["out"]) for x in calls):
            q["out"]["l3"] += 17
        q.update(c=st["c"], h=st["h"], s=st["s"], open=st["open"])
        calls.append(q)

    for st in script["steps"]:
        op = st["op"]
        if op == "call":
            new_call(st)
            s = dict(op="call", k=st["k"], text=rng.randrange(5) == 0)
            if rng.random() < gen.get("busy", 0.2):
                s["burn"] = rng.choice([rng.randrange(100, 128), 126, 127, 125, 124])
            steps.append(s)
        elif op == "cut":
            if proxy:
                steps.append(dict(op="cut", s=st["s"], how=rng.choice(["fin", "rst"])))
        elif op == "cutat":
            if proxy:
                steps.append(dict(op="cutat", s=st["s"], n=rng.choice([rng.randrange(1, 300), rng.randrange(1, 5000), rng.randrange(1, 150000)]), how=rng.choice(["fin", "rst"])))
        elif op == "yield":
            steps.append(dict(op="yield", n=rng.randrange(1, 40)))
        elif op == "sleep":
            steps.append(dict(op="sleep", ms=rng.choice([1, 2, 5])))
        else:
            steps.append(dict(st))
    d = dict(tasks=script["tasks"], ns=ns, nh=nh,
             calls=[dict(c=q["c"], s=q["s"], h=q["h"], open=q["open"], out=q["out"]["k"], json=q["json"],
                         lens=[ep_len(q["ep"]), q["l2"], q["l3"]], rlens=[ep_len(q["out"]["ep"]), q["out"]["l2"], q["out"]["l3"]]) for q in calls])
    mt = rng.choice(gen.get("mt", [0, 0, 2, 4]))
    return dict(fam="e2e", ns=ns, nc=script["nc"], proxy=proxy, own=script["nc"] <= ns and rng.random() < 0.15, chop=rng.randrange(5), seed=rng.randrange(1 << 30),
                cfg=dict(max=rng.choice(gen.get("max", [1, 1, 2, 3])), buf=rng.choice(gen.get("bufs", [1, 1, 2, 3, 100])), tasks=script["tasks"],
                         test=rng.random() < gen.get("test", 0.2), lifetime_ms=rng.choice([0, 0, 0, 30])),
                handlers=handlers, calls=calls, mt=mt, steps=steps if mt == 0 else [x for x in steps if x["op"] != "probe"], **{"def": d})


def build(profile, num, seed, big=0.5):
    scripts = tlc.generate("E2EGen", dict(profile), num, profile["steps"] + 10, seed)
    rng = random.Random(seed * 7919 + 29)
    return [concretise(s, profile, rng, i, big) for i, s in enumerate(scripts)]
