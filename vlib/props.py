"""What each check runs, and the rules that express its property."""
import os

PARALLEL = int(os.environ.get("VERIF_PARALLEL", "8"))
ASSUMPTIONS = [
    "TLC evaluates the specification correctly",
    "the harness' encoder and decoder of frames, written independently of the crate, follow the protocol",
    "loopback TCP delivers what is written to it; 20 s without progress means stuck",
]

NOTE = ("The explored part of the behaviours of the specification (all states of the small models, the sampled scenarios up to the bounds in DESIGN.md) "
        "was executed on the real code and every recorded trace was accepted; nothing is claimed beyond them. Assumes the harness' frame codec and TLC.")
NOT_APPLICABLE = {}

CRASH = {"panic", "hang"}
# server
HANDLE = {"handler_incomplete", "handler_twice", "handler_dropped", "handler_content", "handler_wrong"}
ANSWER = {"answer_content", "answer_args", "answer_stray", "answer_error"}
DUE = {"due_start", "due_answer", "due_error"}
SERVE = DUE | {"closed_early", "handler_dropped"}
# client
RET = {"ret_false", "ret_early", "ret_error", "ret_content"}
DUEC = {"due_return", "due_fail", "due_arrive"}


def merge(base, **kw):
    p = dict(base)
    w = dict(base["w"])
    w.update(kw.pop("w", {}))
    p.update(kw)
    p["w"] = w
    return p


HS4 = [dict(sync=False, json=False), dict(sync=True, json=False), dict(sync=False, json=True), dict(sync=True, json=True)]
SRV = dict(np=3, nr=9, steps=26, hs=HS4[:3], tasks=[0, 1, 2, 4], frames=[1, 1, 2, 3, 4], bufs=[1, 1, 2, 3, 100],
           w=dict(conn=8, call=30, cont=34, ping=4, stray=3, gate=14, sync=8, eof=2, rst=1, wild=0, part=1, fatal=0, resume=5, badhs=0, silent=1, hello=2,
                  reuse=3, paused=6, unserv=8, defect=4, open=35))
SRV["w"]["yield"] = 3
SAGE = merge(SRV, np=4, nr=10, steps=24, w=dict(ages=1, age=3, conn=12, call=34, gate=8, eof=1, rst=1, part=2, silent=0, hello=0, open=30, paused=5, sync=8))
CLI = dict(nk=8, na=2, steps=22, max=[1, 1, 2, 3], frames=[1, 1, 2, 3], hs=["v1", "err", "delay", "close"], pings=["ok"], bufs=[1, 1, 2, 3, 100], test=0.2, inv=0.05, busy=0.3,
           w=dict(call=20, burst=5, resp=34, fail=3, bad=2, odd=1, stray=3, drop=2, close=2, down=0, up=6, hs=0, hsok=6, ping=0, pause=1, resume=6,
                  sleep=1, sync=6, probe=2, jump=0, long=1))
CLI["w"]["yield"] = 6
AGE = merge(CLI, ages=2, steps=16, hs=["mute", "mute", "mute", "close"], test=0.5, pings=["ok", "ok", "mute", "fin"], w=dict(age=5, ping=2, hs=6, hsok=6, call=20, burst=8, resp=40, down=2, close=2, odd=0, pause=1, sync=5, stray=1, jump=0, sleep=0))
E2E = dict(storm=20, nk=14, nc=2, ns=2, nh=4, steps=24, tasks=[0, 1, 2, 4], mt=[0, 0, 2, 4], proxy=0.5, max=[1, 1, 2, 3], bufs=[1, 1, 2, 3, 100], test=0.2, busy=0.2,
           w=dict(call=30, gated=6, burst=8, open=6, drop=3, cut=1, cutat=1, sleep=2, sync=8))
E2E["w"]["yield"] = 6
LIFE = dict(nch=4, na=2, steps=24, mt=[0, 0, 2, 4],
            w=dict(new=12, start=14, again=4, stop=10, idle=2, drop=5, att=8, keep=4, held=4, boom=1, flood=1, exhaust=0, rcall=6, race=3, squat=3, settle=8, sleep=2))
LIFE["w"].update({"yield": 6, "async": 8})
REG = dict(nkey=4, nop=20, conc=5, steps=20, mt=[0, 0, 2, 4], busy=0.4,
           w=dict(reg=20, unreg=8, call=20, gated=6, burst=12, swap=6, sub=4, open=8, sleep=1, sync=6))
REG["w"]["yield"] = 6
EXACT = {"handler_content", "handler_wrong", "handler_early", "ret_content", "ret_kind", "ret_false", "ret_error"}
ALL_HS = ["v0", "v1", "v3", "v258", "v512", "v65535", "err", "type", "req", "trunc", "over", "garbage", "close", "delay", "dup"]


def jobs(*specs):
    """specs: (family, profile, quick number, thorough factor, big)"""
    def f(tier):
        out = []
        for fam, profile, n, factor, big in specs:
            p = dict(profile)
            if tier == "thorough":
                n = n * factor
            out.append(dict(fam=fam, profile=p, num=n, big=big))
        return out
    return f


def models(*specs):
    def f(tier):
        return [dict(s) for s in specs if tier == "thorough" or not s.get("thorough")]
    return f


def frag(name, expect=None, thorough=False):
    return dict(module="FragImpl", cfg="MC_Frag%s.cfg" % name, expect=expect, thorough=thorough, timeout=3000)


FRAG = [frag(""), frag("_x_tight", "FramesLegal"), frag("_deep", thorough=True)]
PEER = [frag("_peer"), frag("_x_empty", "Partial"), frag("_peer7", thorough=True)]


def impl(module, *cfgs):
    """"x_name" refutes: with that defect, the rules are broken; "+name" is for the thorough tier."""
    return [dict(module="MC" + module, cfg="MC%s_%s.cfg" % (module, c.lstrip("+")), expect="RulesKept" if c.startswith("x_") else None, thorough=c.startswith("+"),
                 timeout=3000, heap="6g", **(dict(workers=6) if c.startswith("+") else {})) for c in cfgs]



PROPS = {
    "C01": dict(rules=CRASH | EXACT | {"answer_content", "answer_error", "answer_args", "request_content", "request_args", "due_start", "due_return", "due_answer", "due_arrive"},
                models=models(*FRAG, *impl("E2E", "conns", "x_oldest")),
                jobs=jobs(("e2e", merge(E2E, nk=8, steps=14, w=dict(cut=0, cutat=0, drop=1, gated=2)), 900, 10, 0.9))),
    "C02": dict(rules=CRASH | {"frame_bad", "frame_chunks", "frame_stray", "frame_type", "request_args", "request_content", "request_service", "request_scheme",
                               "answer_args", "answer_content", "answer_stray", "answer_code", "answer_scheme", "due_arrive", "due_answer", "ret_early"},
                models=models(*FRAG),
                jobs=jobs(("srv", merge(SRV, np=2, nr=6, steps=16, tasks=[2, 4], w=dict(stray=0, eof=0, rst=0, part=0, unserv=0, defect=0, paused=3, reuse=0, open=80)), 300, 10, 0.9),
                          ("cli", merge(CLI, na=1, steps=14, w=dict(stray=0, drop=0, close=0, bad=0, odd=0, fail=0, pause=3)), 450, 10, 0.9))),
    "C03": dict(rules=CRASH | RET | HANDLE | {"due_return", "due_start", "due_answer", "answer_error", "closed_early", "client_closed"},
                models=models(*PEER),
                jobs=jobs(("sage", SAGE, 40, 8, 0.1), ("srv", merge(SRV, np=2, nr=7, frames=[2, 3, 4, 5, 7], w=dict(cont=60, unserv=0, defect=0, eof=0, rst=0, part=0, reuse=0, open=70, crowd=60)), 450, 10, 0.4),
                          ("cli", merge(CLI, max=[1, 2], frames=[2, 3, 4, 5, 7], w=dict(resp=60, drop=0, close=0, bad=0, odd=0, fail=1, crowd=40)), 450, 10, 0.4))),
    "C04": dict(rules=CRASH | RET | DUEC | {"ret_kind", "id_in_use", "client_closed", "request_twice"},
                models=models(*impl("Cli", "basic", "x_early")),
                jobs=jobs(("cli", merge(CLI, nk=10, max=[1, 1, 2], na=1, steps=30, w=dict(burst=12, resp=50, fail=5, bad=3, crowd=40, slow=10)), 900, 10, 0.15))),
    "C05": dict(rules=CRASH | SERVE | {"due_return", "ret_early", "ret_error"},
                models=models(*impl("Srv", "many", "x_permit", "+many2"), *impl("E2E", "one", "x_permit", "+four")),
                jobs=jobs(("sage", SAGE, 40, 8, 0.1), ("e2e", merge(E2E, nc=1, ns=1, nh=5, nk=20, steps=30, w=dict(cut=0, cutat=0, burst=16, gated=8, drop=2)), 300, 10, 0.3),
                          ("srv", merge(SRV, nr=12, steps=34, tasks=[1, 1, 2, 3], frames=[1, 2, 3, 4, 5], bufs=[1, 1, 1, 2, 3],
                                        w=dict(call=40, cont=40, gate=16, unserv=3, defect=2, paused=8, ping=2, stray=1, rst=0, eof=2, crowd=40, slow=20)), 700, 10, 0.15))),
    "C06": dict(rules=CRASH | HANDLE | ANSWER | SERVE | {"closed_unanswered", "due_return", "ret_false", "ret_content"},
                models=models(*impl("Srv", "reuse", "many2"), *impl("E2E", "cut", "x_retry", "x_runpartial", "+two")),
                jobs=jobs(("sage", SAGE, 40, 8, 0.1), ("e2e", merge(E2E, nc=3, ns=1, nh=3, w=dict(cut=4, cutat=4, drop=4)), 300, 10, 0.3),
                          ("srv", merge(SRV, nr=11, steps=30, w=dict(reuse=8, stray=5, part=2, eof=3, crowd=30, slow=8)), 800, 10, 0.15))),
    "C07": dict(rules=CRASH | RET | {"due_fail", "due_return"},
                models=models(*impl("Cli", "loss", "x_close", "x_part"), *impl("E2E", "cut", "x_partial", "x_notice", "+two")),
                jobs=jobs(("e2e", merge(E2E, nc=2, ns=1, proxy=1.0, w=dict(cut=5, cutat=8, gated=10, drop=1)), 300, 10, 0.3),
                          ("cli", merge(CLI, nk=10, frames=[1, 2, 3, 4], max=[1, 2, 3], w=dict(close=14, burst=8, resp=40, drop=1, pause=2, odd=0)), 900, 10, 0.15))),
    "C08": dict(rules=CRASH | {"ret_early", "due_arrive", "due_fail", "due_return", "ret_error"},
                models=models(*impl("Cli", "loss", "x_permit", "x_missed", "+loss2")),
                jobs=jobs(("cli", merge(CLI, nk=10, max=[1, 1, 2, 3], test=0.4, hs=["close", "garbage", "v1"], pings=["ok", "ok", "fin"],
                                        w=dict(close=12, call=26, down=3, up=12, hs=1, hsok=12, ping=2, sync=12, drop=2, stray=0, crowd=20, slow=10)), 900, 10, 0.05))),
    "C09": dict(rules=CRASH | SERVE | HANDLE | {"answer_error", "answer_content", "answer_stray", "answer_code", "frame_bad", "frame_type"},
                models=models(*impl("Srv", "fail2", "again", "x_fail", "x_keep", "+fail")),
                jobs=jobs(("srv", merge(SRV, nr=11, steps=30, hs=HS4, w=dict(unserv=35, defect=20, reuse=6, stray=6, open=60, eof=1, rst=0)), 800, 10, 0.12))),
    "C10": dict(rules=CRASH | {"ret_kind", "ret_false", "ret_content", "ret_error", "answer_code", "answer_error", "answer_content", "answer_stray", "due_answer", "due_error", "due_return"},
                models=models(*impl("Cli", "basic")),
                jobs=jobs(("e2e", merge(E2E, ns=1, w=dict(cut=0, cutat=0, drop=1)), 300, 10, 0.3),
                          ("srv", merge(SRV, hs=HS4, nr=10, w=dict(unserv=0, defect=0, reuse=0, stray=0, eof=0, rst=0, part=0, open=80, paused=0)), 450, 10, 0.3),
                          ("cli", merge(CLI, w=dict(fail=6, stray=0, drop=0, close=0, pause=0)), 450, 10, 0.3))),
    "C11": dict(rules=CRASH | {"handshake_first", "before_handshake", "handshake_answer", "handler_no_handshake", "due_init", "due_close", "frame_after_close", "frame_type", "answer_stray",
                               "ret_early", "due_arrive"},
                models=models(*impl("Srv", "hello", "hello2", "hello3", "x_version", "x_nohello", "x_late"), *impl("Cli", "hello", "x_hello", "x_earlyuse", "+hello2")),
                jobs=jobs(("srv", merge(SRV, np=5, nr=8, steps=20, w=dict(conn=10, silent=8, hello=8, badhs=20, cont=10)), 450, 10, 0.05),
                          ("cli", merge(CLI, nk=6, steps=18, hs=ALL_HS, w=dict(hs=10, hsok=12, close=1, drop=1)), 450, 10, 0.05))),
    "C12": dict(rules=CRASH | SERVE | HANDLE | RET | DUEC | {"no_connection", "client_closed", "frame_bad", "answer_error", "due_close", "due_init", "due_pong"},
                models=models(*impl("Srv", "hostile", "x_partial", "x_fatal", "+hostile5")),
                jobs=jobs(("srv", merge(SRV, np=5, nr=10, steps=30, hs=HS4, w=dict(conn=12, wild=6, fatal=3, part=3, defect=30, stray=10, badhs=5, open=70, rst=2)), 550, 10, 0.08),
                          ("cli", merge(CLI, hs=ALL_HS, pings=["ok", "err", "type"], inv=0.3, w=dict(bad=16, odd=8, stray=10, close=5, hs=3, hsok=10, fail=4, ping=1)), 550, 10, 0.08))),
    "C13": dict(rules=CRASH | RET | DUEC | {"ret_kind", "client_closed", "pool_opens"},
                models=models(*impl("Cli", "stray", "x_unknown", "x_input", "+stray3")),
                jobs=jobs(("cli", merge(CLI, max=[1, 1, 2], hs=["dup"], pings=["ok", "dup"], test=0.5, bufs=[1, 1, 1, 2, 3], busy=0.5,
                                        w=dict(stray=36, drop=5, resp=36, ping=5, hs=3, close=0, bad=1, odd=0)), 900, 10, 0.08))),
    "C14": dict(rules=CRASH | {"pool_bound", "pool_opens", "request_address", "client_closed", "due_arrive", "ret_early"},
                models=models(*impl("Cli", "test", "x_missed", "+loss2")),
                jobs=jobs(("cli", merge(CLI, na=3, nk=12, steps=26, max=[1, 2, 3, 4], test=0.3, w=dict(call=30, burst=14, resp=34, close=2, sync=10, stray=0, crowd=40)), 900, 10, 0.08))),
    "C15": dict(rules=CRASH | RET | {"id_in_use", "leak_ids", "due_return", "due_arrive", "ret_kind"},
                models=models(*impl("Cli", "wrap", "x_dup", "+wrapdrop")),
                jobs=jobs(("cli", merge(CLI, max=[1, 1, 2], nk=12, na=1, steps=28, frames=[1, 2, 3], w=dict(jump=16, call=20, burst=4, stray=0, close=2, probe=8, fail=3, bad=3, drop=3)), 900, 10, 0.08))),
    "C16": dict(rules=CRASH | {"register_result", "unregister_result", "wrong_handler", "not_handled", "call_failed", "ret_content", "handler_twice", "handler_content", "handler_kept",
                               "handler_dropped", "handler_wrong", "subchannel_identity", "due_register", "due_call", "setup", "answer_content", "answer_error"},
                models=models(*impl("Reg", "four", "keys", "x_first", "x_replace", "x_leak", "+five")),
                jobs=jobs(("reg", REG, 1500, 10, 0),
                          ("srv", merge(SRV, nr=10, steps=24, w=dict(unserv=25, defect=0, open=70, cont=10, stray=0, reuse=0)), 300, 10, 0.05))),
    "C17": dict(rules=CRASH | {"due_register", "due_call", "handler_overlap", "handler_tasks", "due_start_idle", "due_start", "due_answer"},
                models=models(*impl("Srv", "gated3", "x_unlock", "+gated"), *impl("Reg", "four", "x_hold", "x_mutex"), *impl("E2E", "conns", "x_nomutex", "x_onelock")),
                jobs=jobs(("sage", SAGE, 40, 8, 0.1), ("e2e", merge(E2E, nc=3, ns=1, nh=2, w=dict(cut=0, cutat=0, drop=1, gated=12, open=10), mt=[0, 2, 4]), 300, 10, 0.1),
                          ("srv", merge(SRV, nr=12, steps=32, tasks=[0, 1, 2, 3, 4], frames=[1, 1, 1, 2, 3], w=dict(call=46, gate=14, sync=14, unserv=2, defect=0, open=15, paused=0, rst=0, eof=1)), 800, 10, 0.05),
                          ("reg", merge(REG, nkey=3, w=dict(call=16, gated=20, reg=20, unreg=8, open=10, sync=14)), 300, 10, 0))),
    "C18": dict(rules=CRASH | {"start_twice", "start_refused", "stop_result", "due_served", "due_released", "not_served", "served_stopped", "served_by_other",
                               "attempt_stuck", "due_call", "call_failed", "setup"},
                models=models(*impl("Life", "same7", "x_lock", "x_drop", "x_check", "x_handle", "+same9")),
                jobs=jobs(("life", LIFE, 1600, 6, 0))),
    "C19": dict(rules=CRASH | RET | DUEC | {"leak_ids", "ret_kind", "client_closed", "pool_opens"},
                models=models(*impl("Cli", "drop", "x_release")),
                jobs=jobs(("cli", merge(CLI, nk=11, max=[1, 1, 2], test=0.4, hs=["delay", "close"], frames=[1, 2, 3, 4], w=dict(drop=18, call=30, probe=6, stray=3, close=1, hs=1, hsok=10, pause=3)), 900, 10, 0.3))),
    "C20": dict(rules=CRASH | {"due_pong", "ping_answer", "used_failed_conn", "client_closed", "pool_opens", "due_arrive", "due_return", "ret_early", "ret_error", "due_answer", "closed_early", "due_start"},
                models=models(*impl("Srv", "other", "x_ping"), *impl("Cli", "test")),
                jobs=jobs(("srv", merge(SRV, w=dict(ping=40, open=25, unserv=2, defect=0, wild=0)), 450, 10, 0.08),
                          ("cli", merge(CLI, test=1.0, pings=["ok", "ok", "err", "type", "fin", "dup"], nk=11, steps=28, w=dict(ping=8, call=34, sync=12, resp=40, stray=1, drop=1)), 450, 10, 0.05))),
    "C21": dict(rules=CRASH | {"due_close", "leak", "handler_incomplete", "handler_dropped", "closed_unanswered", "closed_broken", "due_answer", "due_start", "due_error"},
                models=models(*impl("Srv", "many", "x_end")),
                jobs=jobs(("sage", SAGE, 40, 8, 0.1), ("srv", merge(SRV, np=5, nr=10, steps=30, w=dict(conn=12, eof=12, rst=5, part=6, gate=12, paused=6, crowd=10, slow=20)), 800, 10, 0.2))),
    "C22": dict(rules=CRASH | SERVE | HANDLE | ANSWER | {"due_init", "due_pong", "no_connection", "due_return", "ret_early", "ret_error"},
                models=models(*impl("Srv", "two", "x_shared"), *impl("E2E", "+two", "+servers")),
                jobs=jobs(("sage", SAGE, 40, 8, 0.1), ("e2e", merge(E2E, nc=4, ns=1, nh=4, w=dict(cut=1, cutat=2, drop=2)), 300, 10, 0.3),
                          ("srv", merge(SRV, np=6, nr=12, steps=36, w=dict(conn=24, silent=10, hello=8, paused=20, wild=2, part=3, fatal=2, rst=3, eof=4, stray=5, defect=6, badhs=3, crowd=40, slow=10)), 800, 10, 0.12))),
    "C23": dict(rules=CRASH | {"due_served", "not_served", "held_lost", "attempt_stuck", "due_call", "call_failed", "closed_early", "handler_dropped"} | DUE | ANSWER,
                models=models(*impl("Life", "own", "x_accept")),
                jobs=jobs(("sage", SAGE, 60, 8, 0.1), ("life", merge(LIFE, nch=3, w=dict(boom=6, flood=8, exhaust=8, stop=3, drop=1, keep=8, held=12, rcall=8, settle=12)), 900, 6, 0))),
    "C24": dict(rules=CRASH | RET | {"aged_used", "client_closed", "due_return", "due_fail", "due_arrive", "pool_opens", "pool_bound"},
                models=models(*impl("Cli", "retire", "x_retire", "+retire2")),
                jobs=jobs(("age", merge(AGE, w=dict(age=8, hs=1, hsok=6, down=0)), 60, 8, 0.1))),
    "C25": dict(rules=CRASH | DUEC | {"due_giveup", "kept_open", "used_failed_conn", "ret_early", "ret_false", "pool_bound", "pool_opens"},
                models=models(*impl("Cli", "mute", "x_mute", "x_patient", "freeze2", "x_freeze", "+freeze", "+mute3")),
                jobs=jobs(("age", AGE, 40, 8, 0.05), ("age", merge(AGE, na=1, nk=9, test=1.0, max=[1, 1, 2, 3], hs=["mute"], pings=["mute", "mute", "ok"],
                                                                     w=dict(age=8, hs=1, ping=14, call=26, resp=50, down=0, close=0, stray=0, drop=1)), 40, 8, 0.05))),
}
