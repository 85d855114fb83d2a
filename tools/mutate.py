#!/usr/bin/env python3
"""mutate.py [-j N] [-s SHARE] [FILE...]: mechanical mutants of the library, judged by the quick histories of all properties.

Every mutant is built in a scratch copy; the recorded traces are compared with those of the unchanged library, and the
cases that differ are given to TLC, until one is rejected.  Mutants that no property rejects are run through the existing
tests; those that pass them are written to OUT (default /tmp/mut/survivors.txt): equivalent edits and blind spots."""
import argparse, glob, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import gen, models, run

ROOT = "/tmp/mut"
FIRST = {"editgraph": "C01 C02 C03 C08", "editdigraph": "C05 C06 C08", "graph": "C07 C05 C01 C11", "iterators": "C08", "operations": "C09",
         "compare": "C10", "io": "C26 C27", "ordgraph": "C14 C15 C16", "degengraph": "C15", "reachgraph": "C17", "dtfgraph": "C23 C22 C24",
         "algorithms/graph": "C11 C12 C13", "algorithms/lineargraph": "C16 C18 C19 C20 C21", "datastructures/sreach_trace_oracle": "C25", "lib": "C28"}
RULES = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r"(?<=[ (])!(?=[a-z(])", [""]), (r"(?<=if )(?=[a-z])", ["!"]), (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])(?!=)", ["..="]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bany\b", ["all"]), (r"\ball\b", ["any"]),
         (r"\bcontinue\b", ["break", ""]), (r"\bbreak\b", ["continue", ""]), (r"\bleft", ["right"]), (r"\bright", ["left"]),
         (r"\bin_", ["out_"]), (r"\bout_", ["in_"]), (r"\bu\b", ["v"]), (r"\bv\b", ["u"]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bw\b", ["v"]),
         (r"\bself\b", ["other"]), (r"\bother\b", ["self"]), (r"\bfirst\b", ["last"]), (r"\blast\b", ["first"]), (r"\bSome\((\w+)\)$", ["None"]),
         (r"\bunion\b", ["intersection"]), (r"\bintersection\b", ["union"]), (r"\binsert\b", ["remove"]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]),
         (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\bpush_back\b", ["push_front"]), (r"\bpop_front\b", ["pop_back"]), (r"\biter\(\)\.take", ["iter().skip"])]


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    end = next((i for i, l in enumerate(lines) if l.strip().startswith("#[cfg(test)]")), len(lines))
    out = []
    for i in range(end):
        l = lines[i]
        code = l.split("//")[0]
        if not code.strip() or code.strip().startswith(("use ", "#", "pub fn", "fn ", "impl", "pub struct", "pub trait", "type ", "where", "mod ", "pub mod", "pub enum")):
            continue
        seen = set()
        def put(new):
            if new != l and new not in seen:
                seen.add(new)
                out.append((i, l, new))
        for pat, subs in RULES:
            for m in re.finditer(pat, code):
                for s in subs:
                    put(l[:m.start()] + s + l[m.end():])
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.]*\w)", code):
            n = int(m.group())
            for s in {n + 1, max(0, n - 1)} - {n}:
                put(l[:m.start()] + str(s) + l[m.end():])
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "}", "return", "self.it")) and s.count("(") == s.count(")"):
            put(l[:len(l) - len(l.lstrip())] + "();")
    return out


def worker_dir(w):
    d = f"{ROOT}/w{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(run.HARNESS, d + "/harness", symlinks=True, ignore=shutil.ignore_patterns("target"))
    subprocess.run(f"cp -a /repo/src {d}/repo/ && cp -a {run.HARNESS}/src {d}/harness/ && cp /repo/Cargo.toml {d}/repo/", shell=True, check=True)
    c = open(run.HARNESS + "/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"').replace('opt-level = 1', 'opt-level = 0')
    open(d + "/harness/Cargo.toml", "w").write(c)
    return d


ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")


def baseline(binary):
    base, scripts = {}, {}
    work = tempfile.mkdtemp(prefix="gbv-mb-")
    for pid in sorted(gen.PROPS):
        cases = gen.generate(pid, "quick", 1) + models.scripts(pid, "quick", work, gen.Gen(pid, "quick", 1))[0]
        out, n = run.execute(binary, cases, work, pid)
        base[pid] = open(out).read().split("\n")
        scripts[pid] = cases
    shutil.rmtree(work)
    return scripts, base


def judge(d, rel, work, scripts, base):
    """'no build', 'killed Cxx', or ('open', accepted differences)."""
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d + "/harness", env=dict(ENV, CARGO_TARGET_DIR=d + "/harness/target"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return "nobuild"
    first = FIRST.get(rel[:-3], "").split()
    accepted = []
    for pid in first + [p for p in scripts if p not in first]:
        for f in glob.glob(work + "/*"):
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        try:
            out, n = run.execute(d + "/harness/target/debug/gbharness", scripts[pid], work, "m", 4)
        except run.ToolError:
            return "killed-harness " + pid
        lines = open(out).read().split("\n")
        if len(lines) - 1 < len(base[pid]) - 1:
            return f"killed {pid} crash"
        diff = [a for a, b in zip(lines, base[pid]) if a != b]
        if not diff:
            continue
        if any('"panic":' in a for a in diff):
            return f"killed {pid} panic"
        for k in (12, 200):
            with open(out, "w") as f:
                f.write("\n".join(diff[:k]) + "\n")
            try:
                rej, _ = run.validate(out, work, "m")
            except run.ToolError as x:
                return f"toolerror {pid} {str(x)[:100]}"
            if rej:
                return f"killed {pid}"
            if len(diff) <= 12:
                break
        accepted.append(pid)
    return ("open", accepted)


def tests(d, stable):
    subprocess.run("rm -f resources/{temp,set,vec}.txt{,.gz}", shell=True, cwd=d + "/repo", executable="/bin/bash")
    try:
        p = subprocess.run("timeout -k 5 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 4", shell=True, cwd=d + "/repo",
                           env=dict(ENV, CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=260)
    except subprocess.TimeoutExpired:
        return False
    failed = re.findall(r"^test (\S+).* \.\.\. FAILED", p.stdout, re.M)
    return p.returncode == 0 or bool(failed) and not any(f in s for f in failed for s in stable)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=7)
    a.add_argument("-s", type=float, default=1.0)
    a.add_argument("-o", default=ROOT + "/survivors.txt")
    a.add_argument("files", nargs="*")
    a = a.parse_args()
    os.makedirs(ROOT, exist_ok=True)
    scripts, base = baseline(run.build())
    stable = set(re.findall(r'"([^"]+)"', json.dumps(json.load(open("/opt/vp/BASELINE.json")))))
    rng = random.Random(1)
    jobs = []
    for p in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(p, "/repo/src")
        if not a.files or any(f == rel[:-3] for f in a.files):
            jobs += [(rel,) + m for m in mutants(p) if rng.random() < a.s]
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    count = {}
    lock = threading.Lock()
    out = open(a.o, "a")

    def loop(w):
        d = worker_dir(w)
        work = tempfile.mkdtemp(prefix="gbv-mw-")
        while True:
            try:
                rel, i, old, new = q.get_nowait()
            except queue.Empty:
                break
            path = f"{d}/repo/src/{rel}"
            text = open(path).read()
            lines = text.split("\n")
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            try:
                r = judge(d, rel, work, scripts, base)
                if isinstance(r, tuple):
                    passes = tests(d, stable)
                    with lock:
                        r0 = "survivor" if passes else "open-tests-fail"
                        out.write(f"{r0} {rel}:{i+1} accepted-differences={','.join(r[1])}\n  - {old.strip()}\n  + {new.strip()}\n")
                        out.flush()
                    r = r0
                elif r.startswith("toolerror"):
                    with lock:
                        out.write(f"{r} {rel}:{i+1}\n  - {old.strip()}\n  + {new.strip()}\n")
                        out.flush()
            except Exception as x:
                r = "exception " + repr(x)[:200]
                print(r, flush=True)
            open(path, "w").write(text)
            with lock:
                k = r.split()[0]
                count[k] = count.get(k, 0) + 1
                if sum(count.values()) % 25 == 0:
                    print(time.strftime("%H:%M:%S"), count, flush=True)
        shutil.rmtree(work, ignore_errors=True)

    ts = [threading.Thread(target=loop, args=(w,)) for w in range(a.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("done", count)


main()
