"""Running TLC: generation (-simulate), model checking, trace validation."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
WORK = os.path.join(os.path.dirname(SPEC), "work")


class ToolError(Exception):
    pass


def _run(module, cfg, args, env=None, timeout=600, workers=1, heap="3g"):
    os.makedirs(WORK, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s" % (heap, meta)
    cmd = ["tlc", "-config", cfg, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"] + args + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        out, rc = (o.decode(errors="replace") if isinstance(o, bytes) else o), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0


def _unquote(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def generate(module, gen, num, depth, seed, cfg=None, timeout=300):
    """Scenarios printed by a generator module."""
    os.makedirs(WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="gen-", suffix=".json", dir=WORK)
    with os.fdopen(fd, "w") as f:
        json.dump(gen, f)
    try:
        rc, out, _ = _run(module, cfg or module + ".cfg", ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                          env={"GEN": path}, timeout=timeout)
    finally:
        os.remove(path)
    scripts = [json.loads(_unquote(m)) for m in re.findall(r'^<<"SCRIPT", "(.*)">>$', out, re.M)]
    if rc != 0 or not scripts:
        raise ToolError("generation with %s failed (%d):\n%s" % (module, rc, out[-3000:]))
    return scripts


def model_check(module, cfg, workers=8, timeout=800, heap="12g", extra=None):
    """Returns dict(ok, states, distinct, depth, violated, wall, out)."""
    rc, out, wall = _run(module, cfg, ["-cleanup"] + (extra or []), timeout=timeout, workers=workers, heap=heap)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    viol = None
    v = re.search(r"(?:Invariant|Action property|Property) (\S+) is violated", out)
    if v:
        viol = v.group(1)
    elif "Deadlock reached" in out:
        viol = "deadlock"
    elif "Temporal properties were violated" in out:
        viol = "temporal"
    ok = rc == 0 and "Model checking completed. No error has been found" in out
    if not ok and viol is None:
        raise ToolError("TLC on %s/%s (%d):\n%s" % (module, cfg, rc, out[-3000:]))
    return dict(ok=ok, states=states, distinct=distinct, depth=int(d.group(1)) if d else 0, violated=viol, wall=wall, out=out)


def validate(module, trace, cfg=None, timeout=800, heap="6g", env=None):
    """Judges a trace file. Returns (violations [(scenario, line, [rules])], states)."""
    e = {"TRACE": os.path.abspath(trace)}
    e.update(env or {})
    rc, out, wall = _run(module, cfg or module + ".cfg", [], env=e, timeout=timeout, heap=heap)
    viols = []
    for sc, line, rules in re.findall(r'^<<"VIOL", (\d+), (\d+), \{(.*?)\}>>$', out, re.M):
        viols.append((int(sc), int(line), sorted(x.strip().strip('"') for x in rules.split(","))))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    states = int(m[-1][0]) if m else 0
    if rc != 0 and viols and "STOP" not in e:
        # the rules do not say how to go on after a forbidden event
        return validate(module, trace, cfg, timeout, heap, dict(env or {}, STOP="1"))
    if rc != 0:
        raise ToolError("trace validation with %s failed (%d):\n%s" % (module, rc, out[-4000:]))
    return viols, states, wall
