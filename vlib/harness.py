"""Builds the Rust harness from /repo's working tree and runs scenarios with it."""
import fcntl, json, os, subprocess, tempfile, threading, time
from .tlc import ToolError, WORK

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(ROOT, "harness")
HOOKS = "--cfg tchannel_verif"


def build():
    """Returns (binary, hooked, log)."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = ""
        for flags, target in ((HOOKS, "target"), ("", "target/plain")):
            env = dict(os.environ, RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(CRATE, target), CARGO_NET_OFFLINE="true")
            p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            out += p.stdout
            if p.returncode == 0:
                return os.path.join(CRATE, target, "debug", "vh"), bool(flags), out
        raise ToolError("the harness does not build:\n" + out[-4000:])


NET = []
NET_LOCK = threading.Lock()


def net():
    """A range of loopback addresses which no other run of a check is using."""
    with NET_LOCK:
        if NET:
            return NET[0]
        d = os.path.join(tempfile.gettempdir(), "tchannel-verif-nets")
        os.makedirs(d, exist_ok=True)
        for i in range(38):
            n = (os.getpid() + i) % 38
            f = open(os.path.join(d, str(n)), "w")
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                f.close()
                continue
            NET.extend([n, f])
            break
        else:
            NET.append(os.getpid() % 38)
        return NET[0]


def execute(binary, scenarios, name, threads=8, base=0, timeout=700):
    """Runs scenarios. Returns (path of the trace, path of the scenarios, summary)."""
    sc = os.path.join(WORK, name + ".sc.jsonl")
    tr = os.path.join(WORK, name + ".tr.jsonl")
    with open(sc, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    t0 = time.time()
    p = subprocess.run([binary, sc, tr, "--threads", str(threads), "--base", str(base), "--net", str(net())], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    if p.returncode != 0:
        raise ToolError("harness ended with %d: %s" % (p.returncode, p.stderr[-2000:]))
    summary = json.loads(p.stdout.strip().splitlines()[-1])
    summary["wall"] = time.time() - t0
    return tr, sc, summary


def tool_events(trace):
    out = []
    with open(trace) as f:
        for line in f:
            if '"e":"tool"' in line:
                out.append(line.strip()[:300])
    return out
