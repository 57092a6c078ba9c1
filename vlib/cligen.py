"""Concrete scenarios for the client family from abstract ones (spec/CliGen.tla)."""
import random
from . import tlc
from .srvgen import aligned_lengths, room_first, split_legal, sig, ep_len, MANY

BAD = ["csum", "csumbad", "trunc", "lenover", "half", "empty", "nhover", "noas", "as", "asutf8", "wrongas"]
BAD_CONT = ["csum", "csumbad", "trunc", "lenover", "half", "empty"]
ODD = ["flags", "tflags", "code"]
OTHER_TYPES = [1, 2, 3, 0x13, 0xc0, 0xc1, 0xd0, 0xd1]


def concretise(script, gen, rng, idx, big=0.3):
    calls = {}
    frames_of = {}
    buf = rng.choice(gen.get("bufs", [1, 1, 2, 3, 100]))
    test = rng.random() < gen.get("test", 0.3)
    svcs = rng.sample(["svc", "svc2", "", "Svc", "s" * rng.choice([1, 60, 240]), "sérvice"], 3)
    addr_all = [dict(host=0, port=0), dict(host=0, port=1), dict(host=1, port=0)]
    addrs = addr_all[:script["na"]] if rng.randrange(3) else [addr_all[0], addr_all[2], addr_all[1]][:script["na"]]

    def new_call(st):
        k, nf = st["k"], st["nf"]
        js = rng.random() < 0.35
        svc = "l" * rng.choice([256, 257, 300, 511, 512, 65536]) if st.get("long") else rng.choice(svcs)
        ep = rng.choice(["ep", "", "endpoint-é", "e" * 300, {"len": 65400, "seed": 3}] if rng.randrange(6) == 0 else ["ep"])
        is_big = rng.random() < big
        if is_big:
            l2, l3 = aligned_lengths(rng, room_first("req", svc, "json" if js else "raw"), ep_len(ep), exact_json=js)
        elif js:
            l2, l3 = rng.choice([2, 9, 40, 300]), rng.choice([8, 30, 200, 500]) + rng.randrange(5)
        else:
            l2, l3 = rng.choice([0, 0, 1, 5, 50]), rng.choice([0, 1, 9, 100, 3000])
        q = dict(a=st["a"], svc=svc, ep=ep, l2=l2, l3=l3, seed=rng.randrange(1 << 30), json=js)
        while any(sig(q) == sig(x) for x in calls.values()):
            q["l3"] += 17
        out = dict(k="msg" if rng.randrange(4) == 0 else "ok", ep=rng.choice(["", "res", "r" * 300]), json=js, seed=rng.randrange(1 << 30), inv=0)
        if rng.random() < big:
            out["l2"], out["l3"] = aligned_lengths(rng, room_first("res", "", "raw"), ep_len(out["ep"]), exact_json=js)
        elif js:
            out["l2"], out["l3"] = rng.choice([2, 8, 30, 300]), rng.choice([2, 20, 400])
        else:
            out["l2"], out["l3"] = rng.randrange(0, 40), rng.randrange(0, 400)
        while any(sig(out) == sig(x["out"]) for x in calls.values()):
            out["l3"] += 17
        if rng.random() < gen.get("inv", 0.05):
            out["inv"] = rng.choice([2, 3]) if js else rng.choice([1, 2])
            if out["inv"] == 1 and ep_len(out["ep"]) == 0:
                out["ep"] = "res"
            if out["inv"] == 2:
                out["l2"] = max(1, out["l2"])
            if js:
                out["l2"] = max(2, out["l2"])
                out["l3"] = max(2, out["l3"])
        if st.get("long"):
            out["k"] = "none"
        q["out"] = out
        calls[k] = q
        lens = [ep_len(out["ep"]), out["l2"], out["l3"]]
        many = nf > 1 and sum(lens) in range(40, 3000) and rng.randrange(25) == 0
        fr, n = None, rng.choice([20, 40, 70, 140, 300]) if many else nf
        while fr is None:
            fr = split_legal(rng, lens, n)
            n += 1
        frames_of[k] = dict(frames=fr, nf=nf)

    steps = []
    first = True
    merge = rng.randrange(3)

    def put(fs):
        cut = [rng.randrange(1, 200) for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.randrange(4) == 0:
            cut += [rng.randrange(1, 66000) for _ in range(2)]
        if merge and steps and steps[-1]["op"] == "send" and rng.randrange(3) < merge:
            steps[-1]["f"] += fs
            steps[-1]["cut"] += cut
        else:
            steps.append(dict(op="send", f=fs, cut=cut))

    def next_frames(k, i, last, kind):
        fr = frames_of[k]
        t = "res" if i == 0 else "rescont"
        seed = lambda: rng.randrange(1 << 30)
        if kind == "error":
            return [dict(k=k, t="error", of=k, seed=seed(), len=rng.choice([0, 10, 300, 65000]), code=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 0xff]),
                         d=rng.choice(["", "", "", "trunc", "over"]), fin=True)]
        if kind == "bad":
            ch = fr["frames"][i]
            if sum(c[2] + 2 for c in ch) > 64900:
                ch = [[c[0], c[1], min(c[2], 9)] for c in ch]
            return [dict(k=k, t=t, of=k, ch=ch, more=rng.randrange(2) == 0, d=rng.choice(BAD if i == 0 else BAD_CONT), seed=seed(), fin=True, hdr=0)]
        if kind == "odd":
            z = rng.randrange(4)
            if z == 0:
                return [dict(k=k, t="other", of=k, ty=rng.choice(OTHER_TYPES), len=rng.choice([0, 3, 40]), seed=seed())]
            if z == 1:
                return [dict(k=k, t="rescont", of=k, ch=[[1, 0, 0]], more=True, d="flags", seed=seed())]
            return [dict(k=k, t="res", of=k, ch=[[1, 0, 0], [2, 0, 0], [3, 0, 0]], more=rng.randrange(2) == 0, d=rng.choice(ODD), seed=seed(), hdr=0)]
        chs = fr["frames"][i:] if last else fr["frames"][i:i + 1]
        out = []
        for j, ch in enumerate(chs):
            more = j < len(chs) - 1 or not last
            out.append(dict(k=k, t="rescont" if j else t, of=k, ch=ch, more=more, d="", seed=seed(),
                            hdr=rng.choice(MANY) if rng.randrange(8) == 0 and sum(c[2] + 2 for c in ch) < 40000 else rng.choice([0, 0, 1, 5, 9]), inv=0 if more else calls[k]["out"]["inv"], fin=not more))
        return out

    for st in script["steps"]:
        op = st["op"]
        if op == "call":
            new_call(st)
            s = dict(op="call", k=st["k"], text=rng.randrange(5) == 0)
            if rng.random() < gen.get("busy", 0.3):
                s["burn"] = rng.choice([rng.randrange(100, 128), 126, 127, 125, 124])
            if first:
                first = False
                if "jump" not in st and rng.random() < 0.4:     # ids are not small for ever
                    s["base"] = rng.choice([1 << 16, 1 << 8, 1 << 31, 1 << 32, 1 << 24, 1 << 15]) - rng.randrange(1, 12)
            if "jump" in st:
                s["jump"] = dict(of=st["jump"]["of"])
                if st["jump"]["of"] == 0:
                    s["jump"]["id"] = rng.choice([0xffffffff, 0xfffffffe, 0x7fffffff])
            steps.append(s)
            if rng.randrange(3) == 0:
                steps.append(dict(op="yield", n=rng.randrange(1, 30)))
        elif op == "send":
            put(next_frames(st["k"], st["i"], st["last"], st["kind"]))
        elif op == "stray":
            j = st["of"]
            of = j or st["via"]
            base = dict(k=0, via=st["via"], of=of, seed=rng.randrange(1 << 30), hdr=0, d="")
            if j:
                base["idof"] = j
            elif rng.randrange(2):      # differs from an id in use in a few bits only
                base["idof"] = st["via"]
                base["off"] = rng.choice([1 << 31, 1 << 16, 1 << 24, 1 << 30, 4096])
            else:
                base["id"] = 0x4b4b4b4b
            fr = frames_of[of]["frames"]
            z = rng.randrange(6)
            if z == 0:
                fs = [dict(base, t="res", ch=fr[0], more=len(fr) > 1)] + [dict(base, t="rescont", ch=c, more=i < len(fr) - 2) for i, c in enumerate(fr[1:])]
            elif z == 1:
                fs = [dict(base, t="res", ch=fr[0], more=True)]
            elif z == 2:
                fs = [dict(base, t="rescont", ch=fr[-1], more=rng.randrange(2) == 0)]
            elif z == 3:
                fs = [dict(base, t="error", code=3, len=10)]
            elif z == 4:
                fs = [dict(base, t="res", ch=[], more=False, d=rng.choice(BAD))]
            else:
                fs = [dict(base, t="other", ty=rng.choice(OTHER_TYPES), len=rng.choice([0, 4, 30]))]
            put(fs * rng.choice([1, 1, 2, buf + 2 if buf < 10 else 4]))
        elif op == "close":
            s = dict(st)
            s["hex"] = {"garbage": rng.choice(["0000", "000f0300", "0010ee0000000005", "0001", "00070400000001"]) + "00" * 16,
                        "half": rng.choice(["00", "0040", "0040040000000003" + "00" * 8, "ffff14000000000200" + "00" * 30])}.get(st["how"], "")
            steps.append(s)
        elif op == "crowd":
            steps.append(dict(st, seed=rng.randrange(1 << 30)))
        elif op == "yield":
            steps.append(dict(op="yield", n=rng.randrange(1, 40)))
        elif op == "sleep":
            steps.append(dict(op="sleep", ms=rng.choice([1, 2, 5, 20])))
        else:
            steps.append(dict(st))
    nk = script["nk"]
    dummy = dict(a=1, svc="", ep="unused", l2=0, l3=0, seed=1, json=False, out=dict(k="ok", ep="x", l2=0, l3=0, seed=2, json=False, inv=0))
    cl = [calls.get(k, dummy) for k in range(1, nk + 1)]
    d = [dict(a=c["a"], svc=c["svc"], out=c["out"]["k"], lens=[ep_len(c["ep"]), c["l2"], c["l3"]], **{"as": "json" if c["json"] else "raw"}) for c in cl]
    # unlimited, longer than the scenario, or shorter than a step of it
    life = rng.choice([0, 3600000, 20, 300, 700]) if gen.get("ages") else 0
    return dict(fam="cli", limit_s=600, cfg=dict(lifetime_ms=life, max=script["max"], buf=buf, test=test, rcvbuf=rng.choice(gen.get("rcvbufs", [0, 0, 4096]))),
                addrs=addrs, calls=cl, steps=steps, mt=0, **{"def": dict(max=script["max"], life=0 < life < 10000, na=script["na"], calls=d)})


def build(profile, num, seed, big=0.3):
    scripts = tlc.generate("CliGen", dict(profile), num, profile["steps"] + 10, seed)
    rng = random.Random(seed * 7919 + 17)
    return [concretise(s, profile, rng, i, big) for i, s in enumerate(scripts)]
