"""Runs the check of one property."""
import concurrent.futures as cf
import json, os, random, sys, threading, time, traceback
from . import tlc, harness, props
from .families import FAMILIES, corruptions, split
from .tlc import ToolError, WORK

ROOT = os.path.dirname(WORK)
CHUNK = 150


class Job:
    def __init__(self, fam, profile, num, big):
        self.fam, self.profile, self.num, self.big = fam, profile, num, big


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = props.PROPS[pid]
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.violations, self.notes, self.samples = [], [], []
        self.stats = dict(scenarios=0, events=0, trace_states=0, canaries=0, canaries_detected=0)
        self.missed = []
        self.models = []

    def chunk(self, binary, job, k, n, index):
        """Generates, executes and judges n scenarios."""
        if self.stop.is_set():
            return
        fam = FAMILIES[job.fam]
        seed = (self.seed * 1000003 + k * 101 + index * 7) % (1 << 30)
        scs = fam["build"](job.profile, n, seed, job.big)
        if not self.hooked:
            for s in scs:
                s["steps"] = [x for x in s["steps"] if x["op"] != "probe" and not x.get("jump")]
        if self.stop.is_set():
            return
        name = "%s-%s-%d" % (self.pid, job.fam, index)
        tr, sc, summary = harness.execute(binary, scs, name, threads=fam["threads"], base=index * 997)
        tools = harness.tool_events(tr)
        if tools:
            raise ToolError("harness: " + tools[0])
        viols, states, _ = tlc.validate(fam["trace"], tr)
        events = split(tr)
        with self.lock:
            self.stats["scenarios"] += len(events)
            self.stats["events"] += sum(len(e) for e in events)
            self.stats["trace_states"] += states
            if not self.samples and events:
                self.samples.append(dict(family=job.fam, scenario=brief(scs[0]), trace=[json.dumps(e)[:200] for e in events[0][:12]]))
        for s in sorted({v[0] for v in viols}):
            ev = next((e for e in events if e and e[0]["sc"] == s), [])
            self.report(job.fam, scs[s - 1], ev, [(line - first_line(events, s), rules) for x, line, rules in viols if x == s])
        if not viols and index % 4 == 0:
            self.canary(job.fam, fam, events, name, seed)

    def canary(self, family, fam, events, name, seed):
        """Corrupted traces have to be rejected."""
        rng = random.Random(seed)
        good, names = [], []
        for what, f in corruptions(family).items():
            for _ in range(20):
                ev = f(rng.choice(events), rng)
                if ev:
                    good.append(ev)
                    names.append(what)
                    break
        if not good:
            return
        path = os.path.join(WORK, name + ".canary.jsonl")
        with open(path, "w") as f:
            for i, ev in enumerate(good):
                for e in ev:
                    f.write(json.dumps(dict(e, sc=i + 1) if e["e"] == "reset" else e) + "\n")
        viols, _, _ = tlc.validate(fam["trace"], path)
        os.remove(path)
        with self.lock:
            hit = {v[0] for v in viols}
            self.stats["canaries"] += len(good)
            self.stats["canaries_detected"] += len(hit)
            self.missed += [n for i, n in enumerate(names) if i + 1 not in hit]

    def report(self, family, scenario, events, broken):
        """broken: the lines of one execution that break rules."""
        at, rules = next(((a, rs) for a, rs in broken if set(rs) & self.prop["rules"]), broken[0])
        mine = set(rules) & self.prop["rules"]
        with self.lock:
            n = (len(self.violations) if mine else len(self.notes)) + 1
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s%s-%s-%d.json" % (self.pid, "" if mine else "-note", family, n))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, family=family, rules=rules, event=at, broken=broken, scenario=scenario, trace=events), f)
            if not mine:
                self.notes.append("rules of other properties broken: %s, see %s" % (",".join(rules), path))
                return
            self.violations.append((rules, path, events[at - 1] if 0 < at <= len(events) else {}))
            if len(self.violations) >= 3:
                self.stop.set()

    def model(self, m):
        if self.stop.is_set():
            return
        r = tlc.model_check(m["module"], m["cfg"], workers=m.get("workers", 2), timeout=m.get("timeout", 600), heap=m.get("heap", "4g"))
        with self.lock:
            self.models.append(dict(module=m["module"], cfg=m["cfg"], states=r["distinct"], transitions=r["states"], depth=r["depth"],
                                    violated=r["violated"], expected=m.get("expect"), wall_s=round(r["wall"], 1)))
        if r["violated"] != m.get("expect"):
            raise ToolError("model %s/%s: %s, expected %s\n%s" % (m["module"], m["cfg"], r["violated"], m.get("expect"), r["out"][-2500:]))

    def go(self):
        t0 = time.time()
        for f in os.listdir(WORK) if os.path.isdir(WORK) else []:
            if f.startswith(self.pid + "-"):
                os.remove(os.path.join(WORK, f))
        binary, self.hooked, _ = harness.build()
        jobs = self.prop["jobs"](self.tier)
        work = []
        for k, j in enumerate(jobs):
            left = j["num"]
            while left > 0:
                n = min(left, CHUNK)
                left -= n
                work.append((Job(j["fam"], j["profile"], n, j.get("big", 0.25)), k, n))
        errors = []
        with cf.ThreadPoolExecutor(max_workers=props.PARALLEL) as pool:
            fs = [pool.submit(self.model, m) for m in self.prop["models"](self.tier)]
            fs += [pool.submit(self.chunk, binary, j, k, n, i) for i, (j, k, n) in enumerate(work)]
            for f in cf.as_completed(fs):
                try:
                    f.result()
                except Exception as e:
                    errors.append("%s: %s" % (type(e).__name__, e) if isinstance(e, ToolError) else traceback.format_exc())
                    self.stop.set()
        wall = time.time() - t0
        self.evidence(wall)
        for n in sorted(set(self.notes)):
            print("note:", n)
        for rules, path, ev in self.violations[:3]:
            print("rules broken:", ", ".join(rules), "by", json.dumps(ev)[:300])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if self.violations:
            return 1
        if errors:
            print("ERROR", errors[0][:4000])
            return 2
        print("%s holds on everything explored: %s, %.0f s" % (self.pid, self.stats, wall))
        return 0

    def evidence(self, wall):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(
            states=sum(m["states"] for m in self.models) + self.stats["trace_states"],
            transitions=sum(m["transitions"] for m in self.models) + self.stats["events"],
            traces_validated_against_impl=self.stats["scenarios"],
            samples=self.samples or [dict(models=[m["module"] for m in self.models])],
            events_judged=self.stats["events"],
            model_states=sum(m["states"] for m in self.models),
            models=self.models,
            corrupted_traces=self.stats["canaries"], corrupted_traces_rejected=self.stats["canaries_detected"],
            corrupted_traces_accepted=sorted(set(self.missed)),
            rules=sorted(self.prop["rules"]), hooks=self.hooked,
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, wall_s=round(wall, 1),
                  violations=len(self.violations), assumptions=props.ASSUMPTIONS)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)


def first_line(events, s):
    n = 0
    for e in events:
        if e[0]["sc"] == s:
            return n
        n += len(e)
    return n


def brief(sc):
    return dict(cfg=sc.get("cfg"), steps=[{k: v for k, v in s.items() if k in ("op", "p", "k", "r", "a", "how")} for s in sc["steps"][:30]])


def replay(path):
    binary, _, _ = harness.build()
    with open(path) as f:
        r = json.load(f)
    fam = FAMILIES[r["family"]]
    bad = 0
    for i in range(10):
        tr, _, _ = harness.execute(binary, [r["scenario"]], "replay", base=60000 + i)
        viols, _, _ = tlc.validate(fam["trace"], tr)
        events = split(tr)[0]
        for _, line, rules in viols:
            print("run %d: rules broken: %s by %s" % (i + 1, ", ".join(rules), json.dumps(events[line - 1])[:300]))
            bad = 1
        if not viols:
            print("run %d: no rule broken" % (i + 1))
    return bad


def main(args):
    try:
        if args[:1] == ["--replay"]:
            return replay(args[1])
        if args[:1] == ["--setup"]:
            print("harness:", harness.build()[0])
            return 0
        pid = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        os.makedirs(WORK, exist_ok=True)
        return Run(pid, tier, seed).go()
    except ToolError as e:
        print("ERROR", e)
        return 2
