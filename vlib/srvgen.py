"""Concrete scenarios for the server family from abstract ones (spec/SrvGen.tla)."""
import random
from . import tlc

# room for chunks (lengths included) in a call frame: frame payload limit - fields
PAYLOAD = 65534 - 16


def room_first(kind, svc, scheme):
    n = 1 + 25 + 1 + (1 + 2 + 1 + len(scheme)) + (1 + 2 + 1 + len(svc.encode())) + 1
    return PAYLOAD - n - (4 + 1 + len(svc.encode()) if kind == "req" else 1)


ROOM_CONT = PAYLOAD - 2
MANY = [126, 127, 128, 200, 254]        # transport headers besides "as"


def aligned_lengths(rng, first_room, l1, cont_room=ROOM_CONT, exact_json=False):
    """(l2, l3) such that ends of arguments fall at or close to ends of frames, given the length of arg1."""
    def pos_after(n):          # room left in the current frame after arg1, as the splitter works
        room = first_room
        room -= 2
        while n > room:
            n -= room
            room = cont_room - 2
        return room - n
    mode = rng.randrange(8)
    left = pos_after(l1)
    d = rng.randrange(-4, 5)
    ok = lambda x: max(0, x)
    if mode == 0:                                   # arg2 ends at the end of the frame
        l2 = ok(left - 2 + d); l3 = rng.choice([0, 1, 2, 5, 100])
    elif mode == 1:                                 # arg3 ends at the end of the frame
        l2 = rng.choice([0, 1, 7, 1000]); l3 = ok(left - 4 - l2 + d)
    elif mode == 2:                                 # arg2 ends at the end of the next frame
        l2 = ok(left - 2 + cont_room - 2 + d); l3 = rng.choice([0, 1, 3, 70000])
    elif mode == 3:                                 # arg3 ends at the end of a later frame
        k = rng.randrange(1, 3)
        l2 = rng.choice([0, 3, 300]); l3 = ok(left - 4 - l2 + k * (cont_room - 2) + d)
    elif mode == 4:                                 # both
        l2 = ok(left - 2 + rng.randrange(-4, 5)); l3 = ok(cont_room - 2 + rng.randrange(-4, 5))
    elif mode == 5:
        l2 = 0; l3 = 0
    elif mode == 6:
        l2 = rng.randrange(0, 300); l3 = rng.randrange(0, 200000)
    else:
        l2 = rng.randrange(0, 140000); l3 = rng.choice([0, 1, 2, 65000, 65516, 65518, 131032])
    if exact_json:
        f = lambda x: 2 if x < 8 else x
        l2, l3 = f(l2), f(l3)
    return l2, l3


def split_legal(rng, lens, nf, idle=True):
    """Cuts three arguments into nf frames, in any way the protocol allows. None if impossible."""
    total = sum(lens)
    for attempt in range(60):
        pts = []
        for _ in range(nf - 1):
            z = rng.randrange(6)
            a = rng.randrange(3)
            if z == 0:
                pts.append((a, 0))
            elif z == 1:
                pts.append((a, lens[a]))
            elif z == 2 and lens[a] > 2:
                pts.append((a, rng.choice([1, lens[a] - 1])))
            else:
                x = rng.randrange(total + 1)
                a = 0
                while x > lens[a]:
                    x -= lens[a]; a += 1
                pts.append((a, x))
        pts = sorted(pts) + [(2, lens[2])]
        frames, prev, good = [], (0, 0), True
        for i, q in enumerate(pts):
            ch = []
            a, off = prev
            while a < q[0]:
                ch.append([a + 1, off, lens[a] - off]); a += 1; off = 0
            ch.append([a + 1, off, q[1] - off])
            if sum(c[2] + 2 for c in ch) > (65000 if i == 0 else 65517):
                good = False; break
            if not idle and i > 0 and sum(c[2] for c in ch) == 0 and len(ch) == 1 and prev == q and q != (2, lens[2]):
                good = False; break
            frames.append(ch)
            prev = q
        if good:
            return frames
    return None


SPECIAL_IDS = [0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 255, 256, 65535, 65536]
TYPES = {"callres": 4, "callrescont": 0x14, "cancel": 0xc0, "claim": 0xc1, "error": 0xff, "initres": 2, "initreq": 1, "pingres": 0xd1}


class Services:
    """Names of services and endpoints, some close to each other."""
    def __init__(self, rng, hs):
        svcs = ["svc", "svc2", "", "Svc", "s" * rng.choice([1, 60, 240]), "sérvice"]
        rng.shuffle(svcs)
        self.svcs = svcs[:rng.randrange(1, 4)]
        self.handlers = []
        names = ["ep", "ep2", "e", "", "Ep", "ep ", "endpoint-é漢", "svc"]
        used = set()
        for h in hs:
            while True:
                svc = rng.choice(self.svcs)
                z = rng.randrange(12)
                ep = {"len": rng.choice([65400, 66000, 300, 131100]), "seed": rng.randrange(1000)} if z == 0 else rng.choice(names)
                key = (svc, str(ep))
                if key not in used:
                    used.add(key); break
            self.handlers.append(dict(svc=svc, ep=ep, sync=h["sync"], json=h["json"]))
        self.used = used

    def unknown_ep(self, rng, svc):
        for e in ["nope", "ep", "Ep", "ep2", "", "e", "ep\u0000"]:
            if (svc, e) not in self.used and rng.randrange(2):
                return e
        return "nope-%d" % rng.randrange(10)


def ep_len(ep):
    return ep["len"] if isinstance(ep, dict) else len(ep.encode())


def out_def(rng, kind, json, svc, big):
    """What a handler returns."""
    ep = rng.choice(["", "res", "r" * 300]) if rng.randrange(10) else {"len": 65400, "seed": 5}
    if big:
        l2, l3 = aligned_lengths(rng, room_first("res", svc, "json" if json else "raw"), ep_len(ep), exact_json=json)
    else:
        l2, l3 = (rng.choice([2, 8, 30, 300]), rng.choice([2, 20, 400])) if json else (rng.randrange(0, 40), rng.randrange(0, 400))
    return dict(k=kind, ep=ep, l2=l2, l3=l3, seed=rng.randrange(1 << 30), json=json,
                tl=rng.choice([0, 5, 300]) if rng.randrange(8) else rng.choice([65489, 65490, 65491, 65492, 70000, 200000]), var=rng.randrange(4))


def concretise(script, gen, rng, idx, big=0.3):
    sv = Services(rng, gen["hs"])
    reqs, defs, steps = {}, {}, []
    idmap = {}

    def mid(i):
        if i not in idmap:
            while True:
                v = rng.choice(SPECIAL_IDS) if rng.randrange(3) == 0 else rng.randrange(1 << 32)
                if v not in idmap.values():
                    idmap[i] = v; break
        return str(idmap[i])

    if rng.randrange(2) == 0:
        plain = lambda i: str(int(i) + 100)
    else:
        plain = mid
    frames_of, pings = {}, {}
    merge = rng.randrange(3)

    def frame(f, peer):
        g = dict(f)
        g["id"] = plain(f["id"])
        g["seed"] = rng.randrange(1 << 30)
        r = f["r"]
        if f["t"] in ("call", "cont"):
            if r == 0:                      # fragment of no message
                g["t"] = "raw"; g["ty"] = 0x13
                g["hex"] = ("01" if f["more"] else "00") + "00" + "0003616263"
                g["as_t"] = "cont"
            else:
                fr = frames_of[r]
                k = fr["next"]; fr["next"] += 1
                g["hdr"] = rng.choice([0, 0, 1, 5, 9])
                last = k == fr["nf"] - 1
                chs = fr["frames"][k:] if last and not f["d"] else fr["frames"][k:k + 1]
                out = []
                if f["d"] in ("args1", "args2", "args4"):
                    if len(fr["frames"]) > 1 or not reqs[r]["d"]:
                        g["d"], chs = "", fr["frames"]
                    elif f["d"] != "args4":
                        chs = [[c for c in chs[0] if c[0] <= int(f["d"][4])]]
                elif f["d"] and chs and sum(c[2] + 2 for c in chs[0]) > 64900:
                    chs = [[[c[0], c[1], min(c[2], 9)] for c in chs[0]]]     # room for the defect
                if not f["d"] and rng.randrange(8) == 0 and sum(c[2] + 2 for c in chs[0]) < 40000:
                    g["hdr"] = rng.choice(MANY)
                f = dict(f, d=g["d"])
                for i, ch in enumerate(chs):        # more frames than in the abstract scenario, if needed
                    out.append(dict(g, t="cont" if i else g["t"], ch=ch, more=i < len(chs) - 1 or f["more"]))
                return out
        elif f["t"] == "other":
            g["ty"] = TYPES[f.get("ty", "cancel")]
            g["len"] = rng.choice([0, 1, 30, 200])
            if g["ty"] == 0x14 and rng.randrange(2):
                g["hex"] = "0100000161"
            if g["ty"] == 1 and rng.randrange(2):
                g["hex"] = "00020000"
            g["t"] = "raw"; g["as_t"] = "other"
        elif f["t"] == "fatal":
            g["as_t"] = "fatal"
            g["t"] = "bytes"
            g["hex"] = rng.choice(["0010ee00" + "00000005" + "00" * 8, "000f0300" + "00000005" + "00" * 8, "00000000", "0001", "0010000000000005" + "00" * 8])
        elif f["t"] == "part":
            g["as_t"] = "part"; g["t"] = "bytes"
            g["hex"] = rng.choice(["00", "0010", "00200300", "0010d00000000005" + "00" * 7, "ffff0300000000" + "00" * 40])
        elif f["t"] == "wild":
            g["as_t"] = "wild"
            z = rng.randrange(3)
            if z == 0:
                g["t"] = "random"; g["len"] = rng.randrange(1, 400)
            else:
                g["t"] = "mut"; g["k"] = rng.randrange(1, 4)
                # a request of its own, of no interest to the rules
                g["of"] = [dict(t="raw", ty=3, id=str(rng.randrange(1 << 32)), hex=wild_call(rng, sv)),
                           dict(t="raw", ty=0x13, id=str(rng.randrange(1 << 32)), hex="0000000161"),
                           dict(t="ping", id="77")][: rng.randrange(1, 4)]
        elif f["t"] == "ping" and rng.randrange(20) == 0:        # many
            n = rng.choice([20, 70, 140, 300])
            pings[peer] = pings.get(peer, 0) + n - 1
            return [dict(g, id=str((int(g["id"]) + j) % (1 << 32))) for j in range(n)]
        return [g]

    for st in script["steps"]:
        op = st["op"]
        if op == "conn":
            steps.append(dict(op="conn", p=st["p"], paused=st["paused"]))
            if st["init"]:
                steps.append(dict(op="send", p=st["p"], f=[dict(t="init", id=plain("1"), v=2, d="", more=False, r=0, seed=rng.randrange(1 << 30))],
                                  cut=[rng.randrange(1, 40) for _ in range(rng.randrange(3))]))
        elif op == "send":
            new = st.get("new")
            fs = st["f"]
            for f in fs:
                if f["t"] == "call" and f["r"] not in reqs:
                    n = dict(new, d=f["d"]) if new else dict(p=st["p"], id=f["id"], h=1, ok=True, json=gen["hs"][0]["json"], out="ok", open=True, r=f["r"], hh=1, bad="", nf=1)
                    if not new:
                        n["h"] = n["hh"] = 1
                    add_req(n, reqs, defs, frames_of, sv, gen, rng, plain, big, script)
            out = [g for f in fs for g in frame(f, st["p"])]
            total = 200
            step = dict(op="send", p=st["p"], f=out, cut=[rng.randrange(1, 200) for _ in range(rng.choice([0, 0, 1, 2, 4]))])
            if rng.randrange(4) == 0:
                step["cut"] += [rng.randrange(1, 66000) for _ in range(3)]
            if merge and steps and steps[-1]["op"] == "send" and steps[-1]["p"] == st["p"] and rng.randrange(3) < merge:
                steps[-1]["f"] += out
                steps[-1]["cut"] += step["cut"]
            else:
                steps.append(step)
        elif op == "sync":
            due = []
            for k, c in st["due"]:
                if c == 0:
                    continue
                parts = k.split(":")
                if parts[0] == "pongs":
                    c += pings.get(int(parts[1]), 0)
                if parts[0] == "ans":
                    k = "ans:%s:%s" % (parts[1], plain(parts[2]))
                due.append([k, c])
            steps.append(dict(op="sync", due=due))
        elif op == "age":
            steps.append(dict(op="sleep", ms=rng.choice([12000, 36000, 36000])))
        elif op == "crowd":
            steps.append(dict(st, seed=rng.randrange(1 << 30)))
        else:
            steps.append(dict(st))
    nr = max(reqs) if reqs else 0
    rl = [reqs.get(r, dict(svc="", ep="unused", l2=0, l3=0, seed=r, json=False, out=dict(k="ok", ep="x", l2=0, l3=0, seed=r, json=False))) for r in range(1, nr + 1)]
    dl = [defs.get(r, dict(p=1, id="", h=0, ok=False, wh=0, json=False, out="ok", open=False)) for r in range(1, nr + 1)]
    # contents have to tell requests apart, and responses too
    return dict(fam="srv", cfg=dict(tasks=script["tasks"], buf=rng.choice(gen.get("bufs", [1, 1, 2, 3, 100]))),
                services=sv.svcs, handlers=sv.handlers, reqs=rl, steps=steps,
                **{"def": dict(tasks=script["tasks"], np=script["np"], nh=len(gen["hs"]), reqs=dl)})


def sig(x):
    """Differs for messages of different contents."""
    return (str(x["ep"]), x["json"], x["l2"], x["l3"]) if x["l2"] + x["l3"] <= 60 else (x["seed"],)


def wild_call(rng, sv):
    h = rng.choice(sv.handlers)
    svc = h["svc"].encode()
    ep = (h["ep"] if isinstance(h["ep"], str) else "x").encode()
    p = b"\0" + b"\0\0\xff\xff" + bytes(25) + bytes([len(svc)]) + svc
    p += b"\1\2as" + (b"\4json" if h["json"] else b"\3raw") + b"\0"
    for a in (ep, b'{"w":1}', b'{"wild":true}'):
        p += len(a).to_bytes(2, "big") + a
    return p.hex()


def add_req(n, reqs, defs, frames_of, sv, gen, rng, plain, big, script):
    r, hh = n["r"], n["hh"]
    hd = sv.handlers[hh - 1]
    svc, ep, json = hd["svc"], hd["ep"], hd["json"]
    scheme = ""
    bad = n.get("bad", "")
    if bad == "svc":
        svc = rng.choice(["unknown", "svc ", "SVC", "svc3"])
    elif bad == "ep":
        ep = sv.unknown_ep(rng, svc)
    elif bad == "scheme":
        scheme = rng.choice(["http", "thrift", "sthrift", "raw" if json else "json"])
    inv = rng.choice([2, 3]) if json else 2
    is_big = rng.random() < big
    nf = n["nf"]
    if is_big:
        l2, l3 = aligned_lengths(rng, room_first("req", svc, "json" if json else "raw"), ep_len(ep), exact_json=json)
    elif json:
        l2, l3 = rng.choice([2, 9, 40, 300]), rng.choice([8, 30, 200, 500]) + rng.randrange(5)
    else:
        l2, l3 = rng.choice([0, 0, 1, 5, 50]), rng.choice([0, 1, 9, 100, 3000])
    q = dict(svc=svc, ep=ep, l2=l2, l3=l3, seed=rng.randrange(1 << 30), json=json, open=n["open"])
    if scheme:
        q["as"] = scheme
    if bad == "utf8":
        q["inv"] = inv
        q["l2"] = max(q["l2"], 1)
    d = "" if bad == "utf8" else n.get("d", "")
    if d == "args2" and not json:       # told apart by the two
        q["l2"], q["l3"] = q["l2"] % 60000 + 61, 0
    if d == "args1" and not json:
        q["l2"] = q["l3"] = 0
        if any(sig(q) == sig(x) for x in reqs.values()):
            d = ""
    q["d"] = d
    # requests of a scenario have to differ
    while any(sig(q) == sig(x) for x in reqs.values()):
        q["l3"] += 17
    lens = [ep_len(ep), q["l2"], q["l3"]]
    many = nf > 1 and not is_big and sum(lens) > 40 and rng.randrange(25) == 0
    fr, k = None, rng.choice([20, 40, 70, 140, 300]) if many else nf
    while fr is None:
        fr = split_legal(rng, lens, k)
        k += 1
    o = out_def(rng, n["out"], json, hd["svc"], rng.random() < big)
    while any(sig(o) == sig(x["out"]) for x in reqs.values()):
        o["l3"] += 17
    q["out"] = o
    reqs[r] = q
    defs[r] = dict(p=n["p"], id=plain(n["id"]), h=n["h"], ok=n["ok"], wh=n.get("wh", 0), json=json, out=n["out"], open=n["open"])
    frames_of[r] = dict(frames=fr, next=0, nf=nf)


def build(profile, num, seed, big=0.3):
    gen = dict(profile)
    scripts = tlc.generate("SrvGen", gen, num, gen["steps"] + 10, seed)
    rng = random.Random(seed * 7919 + 13)
    return [concretise(s, gen, rng, i, big) for i, s in enumerate(scripts)]
