"""Families of scenarios: generator, judge, corrupted traces that have to be rejected."""
import json, random
from . import srvgen, cligen, e2egen, lifegen, reggen

FAMILIES = {
    "srv": dict(build=srvgen.build, trace="SrvTrace", threads=8),
    "sage": dict(build=srvgen.build, trace="SrvTrace", threads=64),   # the same with long waits
    "cli": dict(build=cligen.build, trace="CliTrace", threads=16),
    "age": dict(build=cligen.build, trace="CliTrace", threads=64),   # the same with long waits
    "e2e": dict(build=e2egen.build, trace="E2ETrace", threads=8),
    "life": dict(build=lifegen.build, trace="LifeTrace", threads=1),
    "reg": dict(build=reggen.build, trace="RegTrace", threads=8),
}


def _first(events, want):
    return [i for i, e in enumerate(events) if want(e)]


def corruptions(fam):
    """name -> function(events, rng) -> corrupted events or None."""
    def drop(want):
        def f(ev, rng):
            c = _first(ev, want)
            if not c:
                return None
            i = rng.choice(c)
            return ev[:i] + ev[i + 1:]
        return f

    def change(want, how):
        def f(ev, rng):
            c = _first(ev, want)
            if not c:
                return None
            i = rng.choice(c)
            e = dict(ev[i])
            how(e)
            return ev[:i] + [e] + ev[i + 1:]
        return f

    def double(want):
        def f(ev, rng):
            c = _first(ev, want)
            if not c:
                return None
            i = rng.choice(c)
            return ev[:i + 1] + [ev[i]] + ev[i + 1:]
        return f

    if fam in ("srv", "sage"):
        return {
            "answer lost": drop(lambda e: e["e"] == "rx" and e["t"] == "callres" and e["last"]),
            "answer twice": double(lambda e: e["e"] == "rx" and e["t"] == "callres" and e["last"] and not e["more"]),
            "answer of another": change(lambda e: e["e"] == "rx" and e["t"] == "callres" and e["last"], lambda e: e.update(m=[99])),
            "handler twice": double(lambda e: e["e"] == "hstart" and e["r"] > 0),
            "chunk length": change(lambda e: e["e"] == "rx" and e["t"] == "callres" and len(e["ch"]) == 3, lambda e: e.update(ch=[e["ch"][0] + 1] + e["ch"][1:])),
            "pong lost": drop(lambda e: e["e"] == "rx" and e["t"] == "pingres"),
            "code": change(lambda e: e["e"] == "rx" and e["t"] == "callres", lambda e: e.update(code=1 - e["code"])),
            "crowd: not answered": change(lambda e: e["e"] == "crowd", lambda e: e.update(answered=e["n"] - 1)),
            "crowd: content": change(lambda e: e["e"] == "crowd", lambda e: e.update(wrong=1)),
        }
    if fam in ("cli", "age"):
        return {
            "return lost": drop(lambda e: e["e"] == "ret"),
            "other content": change(lambda e: e["e"] == "ret" and e["out"] != "err", lambda e: e.update(m=[99])),
            "kind": change(lambda e: e["e"] == "ret" and e["out"] == "ok", lambda e: e.update(out="msg")),
            "id reused": change(lambda e: e["e"] == "srx" and e["t"] == "initreq", lambda e: e.update(v=1)),
            "request twice": double(lambda e: e["e"] == "srx" and e["t"] == "callreq" and e["last"]),
            "crowd: not returned": change(lambda e: e["e"] == "crowd", lambda e: e.update(returned=e["n"] - 1)),
            "crowd: content": change(lambda e: e["e"] == "crowd", lambda e: e.update(wrong=1)),
            "service": change(lambda e: e["e"] == "srx" and e["t"] == "callreq", lambda e: e.update(svc=e["svc"] + "x")),
        }
    if fam == "life":
        return {
            "start twice": change(lambda e: e["e"] == "start" and not e["ok"], lambda e: e.update(ok=True)),
            "start refused": change(lambda e: e["e"] == "start" and e["ok"], lambda e: e.update(ok=False)),
            "not up": change(lambda e: e["e"] == "settle" and e["want"] == "up", lambda e: e.update(done=False)),
            "not released": change(lambda e: e["e"] == "settle" and e["want"] == "down", lambda e: e.update(done=False)),
            "served by other": change(lambda e: e["e"] == "end" and e["res"] == "served", lambda e: e.update(h=e["h"] + 1)),
            "call failed": change(lambda e: e["e"] == "rret", lambda e: e.update(ok=False)),
        }
    if fam == "reg":
        return {
            "register result": change(lambda e: e["e"] == "ret", lambda e: e.update(ok=not e["ok"])),
            "other handler": change(lambda e: e["e"] == "hstart", lambda e: e.update(h=e["h"] % 2 + 1)),
            "not handled": drop(lambda e: e["e"] == "hstart"),
            "call lost": drop(lambda e: e["e"] == "cret"),
            "handler kept": drop(lambda e: e["e"] == "hgone"),
            "subchannel": change(lambda e: e["e"] == "sub" and e["id"] == 1, lambda e: e.update(id=77)),
        }
    if fam == "e2e":
        return {
            "return lost": drop(lambda e: e["e"] == "ret" and e["out"] != "err"),
            "other content": change(lambda e: e["e"] == "ret" and e["out"] != "err", lambda e: e.update(m=[99])),
            "kind": change(lambda e: e["e"] == "ret" and e["out"] == "ok", lambda e: e.update(out="msg")),
            "handler twice": double(lambda e: e["e"] == "hstart" and e["r"] > 0),
            "handler of another": change(lambda e: e["e"] == "hstart" and e["r"] > 0, lambda e: e.update(h=3 - e["h"] if e["h"] < 3 else 1)),
            "unknown request": change(lambda e: e["e"] == "hstart" and e["r"] > 0, lambda e: e.update(r=0)),
            "storm: content": change(lambda e: e["e"] == "storm", lambda e: e.update(content=1)),
            "storm: stuck": change(lambda e: e["e"] == "storm", lambda e: e.update(stuck=1)),
        }
    return {}


def split(trace):
    """Trace file -> lists of events, one per scenario."""
    out = []
    with open(trace) as f:
        for line in f:
            e = json.loads(line)
            if e["e"] == "reset":
                out.append([])
            out[-1].append(e)
    return out
