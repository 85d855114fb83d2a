"""Runs scripts against the real library, validates the recorded traces with TLC, runs the design models."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


def build():
    """Builds the harness against /repo's working tree; the tracked files of /repo are not touched."""
    target = os.path.join(HARNESS, "target")
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
    env.pop("RUSTFLAGS", None)
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", "gbharness")


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(binary, cases, work, name, case_timeout=20):
    """Runs the cases, returns the path of the recorded trace file and the number of recorded cases."""
    script, out, scratch = (os.path.join(work, f"{name}.{x}") for x in ("script", "trace", "scratch"))
    os.mkdir(scratch)
    with open(script, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    p = subprocess.run([binary, script, out, scratch, str(case_timeout)], preexec_fn=_limit,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    shutil.rmtree(scratch, ignore_errors=True)
    done = 0
    if os.path.exists(out):
        with open(out, "rb") as f:
            data = f.read()
        if not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
            with open(out, "wb") as f:
                f.write(data)
        done = data.count(b"\n")
    if p.returncode == 96 or (p.returncode not in (0, 97) and p.returncode > 0 and p.returncode < 100 and p.returncode != 134):
        raise ToolError(f"harness error (exit {p.returncode}): {p.stderr[-2000:]}")
    if p.returncode != 0:
        # the library hung, aborted or crashed in the next case: its calls have no result
        what = "hang" if p.returncode == 97 else f"process died ({p.returncode})"
        c = dict(cases[done])
        evs = [dict(e) for e in c["ev"]]
        evs[0]["panic"] = what
        with open(out, "a") as f:
            f.write(json.dumps({"id": c["id"], "ev": evs}) + "\n")
        done += 1
    return out, done


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
VALUE_ERRORS = ("Attempted to", "In applying the function", "which is not in the domain", "CHOOSE", "not a function", "is not enumerable")
NOT_VALUES = ("StackOverflow", "OutOfMemory", "Java ran out", "heap space", "Could not", "Parsing or semantic", "java.io", "Unknown operator")


def tlc(spec, cfg, work, name, workers=1, env=None, heap="3g", timeout=3000, extra=(), cwd=SPEC, defs=()):
    meta = os.path.join(work, name + ".meta")
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, workers)}", "-XX:TieredStopAtLevel=4",
           *defs, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC timed out after {timeout}s on {name}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STATS.finditer(p.stdout):
        pass
    return p.returncode, p.stdout, (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(trace, work, name, workers=1):
    """Validates one trace file: (rejection or None, states generated, distinct states).  A rejection is a
    pair (line of the trace file, index of the first call that is not a step of the specification, 1-based) plus a reason."""
    rc, out, st = tlc("GraphbenchTrace.tla", "GraphbenchTrace.cfg", work, name, workers, env={"TRACE": trace})
    if rc == 0 and "No error has been found" in out:
        return None, st
    at = None
    for at in re.finditer(r"^/\\ c = (\d+)\s*\n/\\ l = (\d+)", out, re.M):
        pass
    if at and not any(x in out for x in NOT_VALUES):
        case, pos = int(at.group(1)), int(at.group(2))
        if "Deadlock reached" in out:
            return (case, pos, "not a step of the specification"), st
        if "Invariant StoreOK is violated" in out:
            return (case, pos - 1, "ill-formed abstract state"), st
        if any(x in out for x in VALUE_ERRORS):
            msg = next((l for l in out.splitlines() if any(x in l for x in VALUE_ERRORS)), "")
            return (case, pos, "recorded value outside the specified type: " + msg.strip()[:200]), st
    keep = os.path.join(tempfile.gettempdir(), "gbv-tlc-error.log")
    with open(keep, "w") as f:
        f.write(out)
    raise ToolError(f"TLC failed on {name} (exit {rc}):\n{out[-3000:]}")


def shards(cases, k):
    """Splits the cases by estimated weight into at most k shards."""
    parts = [[] for _ in range(k)]
    load = [0] * k
    for c in sorted(cases, key=weight, reverse=True):
        i = load.index(min(load))
        parts[i].append(c)
        load[i] += weight(c)
    return [p for p in parts if p]


def weight(c):
    return c.get("w") or sum(1 + len(e.get("us", ())) ** 2 / 20 + len(e.get("es", ())) / 10 for e in c["ev"])


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.calls = 0
        self.ops = {}
        self.rejections = []   # (case id, index, reason, recorded case)
        self.known = {}        # signature of a known finding -> description


def conformance(binary, cases, work, procs=CPUS, known=None, signature=None):
    ids = [c["id"] for c in cases]
    if len(set(ids)) != len(ids):
        raise ToolError("duplicate case ids")
    res = Result()

    def one(arg):
        i, part = arg
        trace, n = execute(binary, part, work, f"s{i}")
        seen = {}
        skip = set()
        with open(trace) as f:
            lines = f.readlines()
        states = gens = 0
        while True:
            live = [x for j, x in enumerate(lines) if j not in skip]
            with open(trace, "w") as f:
                f.writelines(live)
            rej, st = validate(trace, work, f"s{i}") if live else (None, (0, 0))
            gens += st[0]
            states += st[1]
            if not rej:
                break
            text = live[rej[0] - 1]
            rec = json.loads(text)
            rej = (rec["id"], rej[1], rej[2], rec)
            sig = signature(rec, rej[1]) if signature else None
            if not known or sig not in known:
                break
            seen[sig] = known[sig]
            skip.add(next(j for j, x in enumerate(lines) if j not in skip and x == text))
            rej = None
        ops = {}
        for line in lines:
            for o in re.findall(r'"op": ?"(\w+)"', line):
                ops[o] = ops.get(o, 0) + 1
        os.remove(trace)
        os.remove(os.path.join(work, f"s{i}.script"))
        return rej, (gens, states), n, ops, seen

    parts = shards(cases, procs)
    with ThreadPoolExecutor(procs) as ex:
        for rej, st, n, ops, seen in ex.map(one, list(enumerate(parts))):
            res.transitions += st[0]
            res.states += st[1]
            res.traces += n
            res.known.update(seen)
            for o, k in ops.items():
                res.ops[o] = res.ops.get(o, 0) + k
                res.calls += k
            if rej:
                res.rejections.append(rej)
    return res
