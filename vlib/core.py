"""Shared machinery: building the harness, running TLC, replaying scenarios, judging traces."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(TARGET, "debug", "pharness")
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed; says nothing about the code."""


def log(*a):
    print("  ", *a, flush=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "harness")):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".proto")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build():
    """Build the harness against /repo's working tree. Compile errors there are tool errors."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "tree-hash")
    th = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == th and os.path.exists(HARNESS):
        return th
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cfg tokio_unstable -Awarnings", CARGO_NET_OFFLINE="true")
    env.pop("CARGO_BUILD_TARGET", None)
    man = ["--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    if old and old != th:
        # do not trust time stamps: sources may have changed in any way since the last build
        subprocess.run(["cargo", "clean", "--offline"] + man + sum((["-p", p] for p in (
            "pharness", "protosocket", "protosocket-rpc", "protosocket-server", "protosocket-prost",
            "protosocket-messagepack")), []), env=env, capture_output=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"] + man, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(th)
    return th


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, args=(), env=None, timeout=800, workers=None, heap="6g"):
    """Run TLC on SPEC/module with SPEC/cfg (or cfg text); returns stdout."""
    os.makedirs(WORK, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    try:
        if "\n" in cfg:
            cfgp = os.path.join(meta, "model.cfg")
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            cfgp = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = ""
        e.update(env or {})
        jars = ":".join(os.path.join("/opt/veriftools/tla", f) for f in sorted(os.listdir("/opt/veriftools/tla")) if f.endswith(".jar"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", jars, "tlc2.TLC",
               "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        return r.stdout + r.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model_check(module, cfg, expect_violation=None, timeout=800):
    """Exhaustive check. Returns dict(states, distinct, depth, ok, violated)."""
    out = tlc(module, cfg, timeout=timeout)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    v = re.search(r"Error: (Invariant|Temporal properties|Action property) ?(\w+)? ?(is|were) violated", out)
    ok = "Model checking completed. No error has been found" in out
    if not ok and not v:
        raise ToolError(f"TLC failed on {module}:\n" + out[-3000:])
    num = lambda s: int(s.replace(",", ""))
    return dict(ok=ok, violated=(v.group(2) or v.group(1)) if v else None,
                states=num(m.group(1)) if m else 0, distinct=num(m.group(2)) if m else 0,
                depth=int(d.group(1)) if d else 0, output=out)


def generate(module, cfg, num, seed, depth=500, tag="SCEN"):
    """Random behaviours of a generator module; deterministic for a seed."""
    workers = 4
    out = tlc(module, cfg, ["-simulate", f"num={max(1, num // workers)}", "-seed", str(seed), "-depth", str(depth)], workers=workers)
    res = set()
    for l in out.splitlines():
        if l.startswith(f'"{tag} '):
            res.add(json.loads(l)[len(tag) + 1:])
    if not res:
        raise ToolError(f"{module} generated nothing:\n" + out[-3000:])
    return [json.loads(x) for x in sorted(res)]


# ---------------------------------------------------------------- replay and judgement
def run_harness(scens, idle_ms=1, idle_rounds=3, threads=16, timeout=600):
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="run-", dir=WORK)
    try:
        sp, tp = os.path.join(d, "scen.ndjson"), os.path.join(d, "trace.ndjson")
        with open(sp, "w") as f:
            for s in scens:
                f.write(json.dumps(s) + "\n")
        cmd = [HARNESS, "--scen", sp, "--out", tp, "--threads", str(threads), "--idle-ms", str(idle_ms), "--idle-rounds", str(idle_rounds)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        if r.returncode != 0:
            raise ToolError(f"harness failed ({r.returncode}): {r.stderr[-2000:]}")
        with open(tp) as f:
            traces = [json.loads(l) for l in f]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for t in traces:
        if t.get("tool_error"):
            raise ToolError("harness: " + t["tool_error"])
    return traces


def judge(traces, module, chunk=1500):
    """Replay traces through the contract; returns {id: [(label, event index)...]} and #states."""
    verdicts, states = {}, 0
    os.makedirs(WORK, exist_ok=True)
    for i in range(0, len(traces), chunk):
        part = traces[i:i + chunk]
        d = tempfile.mkdtemp(prefix="judge-", dir=WORK)
        try:
            tp = os.path.join(d, "t.ndjson")
            with open(tp, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            out = tlc(module, "Trace.cfg", env={"TRACE_FILE": tp})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        got = {}
        for l in out.splitlines():
            if l.startswith('"VERDICT '):
                v = json.loads(json.loads(l)[8:])
                got[v["id"]] = [(x[0], x[1]) for x in v["v"]]
        missing = [t["id"] for t in part if t["id"] not in got]
        if missing:
            raise ToolError(f"{module} gave no verdict on {missing[:5]}:\n" + out[-3000:])
        verdicts.update(got)
        m = re.search(r"([\d,]+) states generated", out)
        states += int(m.group(1).replace(",", "")) if m else 0
    return verdicts, states
