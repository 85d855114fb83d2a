#!/usr/bin/env python3
"""corrupt.py [-n VARIANTS] [-s SEED] ID...: how much of what the harness records does the specification constrain?

Records histories from the real library, changes one recorded value at a time (a number, a truth value, a missing or a doubled
list element, a nothing for a something) and asks TLC whether the changed history is still a behaviour of the specification.
Prints, per operation and field, how many changed histories were rejected, and the accepted ones for review (they should be the
answers that the properties leave open: iteration orders, approximate sets, which cycle, which colours)."""
import argparse, json, os, random, re, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import gen, run
from concurrent.futures import ThreadPoolExecutor

MODULE = """------ MODULE Corrupt ------
EXTENDS GraphbenchTrace, TLC
Done == l > Len(Ev) /\\ PrintT(<<"DONE", Cases[c].id>>) /\\ UNCHANGED tvars
CNext == Edits \\/ Queries \\/ Ordered \\/ Augmented \\/ Others \\/ Done
CSpec == TraceInit /\\ [][CNext]_tvars
=====
"""
CFG = "SPECIFICATION CSpec\nVIEW TraceView\nCHECK_DEADLOCK FALSE\n"


def leaves(x, path):
    """Paths of everything that can be changed below x."""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + [k])
    elif isinstance(x, list):
        yield path
        for i in range(len(x)):
            yield from leaves(x[i], path + [i])
    else:
        yield path


def change(r, x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + r.choice([-1, 1, 1, 2])
    if isinstance(x, str):
        return x + "x"
    if isinstance(x, list):
        if not x:
            return [0]
        i = r.randrange(len(x))
        return x[:i] + x[i + 1:] if r.random() < .6 else x[:i] + [x[i]] + x[i:]
    return 0


def corrupt(r, case, n):
    ev = json.loads(json.dumps(case["ev"]))
    idx = [i for i, e in enumerate(ev) if "res" in e and e["op"] != "mk"]
    if not idx:
        return None
    i = r.choice(idx)
    ps = list(leaves(ev[i]["res"], ["res"]))
    p = r.choice(ps)
    o = ev[i]
    for k in p[:-1]:
        o = o[k]
    old = o[p[-1]]
    o[p[-1]] = change(r, old)
    if o[p[-1]] == old:
        return None
    field = ".".join(str(k) if isinstance(k, str) else "*" for k in p)
    return dict(case, id=f"v{n}", ev=ev[:i + 1]), (ev[i]["op"], field, json.dumps(old)[:80], json.dumps(o[p[-1]])[:80], json.dumps({k: v for k, v in ev[i].items() if k != "res"})[:160], case["id"])


def accepted(work, name, cases):
    """The ids of the cases that are behaviours of the specification."""
    done, live = set(), list(cases)
    while live:
        trace = os.path.join(work, name + ".json")
        with open(trace, "w") as f:
            f.writelines(json.dumps(c) + "\n" for c in live)
        rc, out, _ = run.tlc("Corrupt.tla", "Corrupt.cfg", work, name, env={"TRACE": trace}, cwd=work, defs=["-DTLA-Library=" + run.SPEC])
        done |= set(re.findall(r'"DONE", "(v\d+)"', out))
        if rc == 0:
            break
        at = None
        for at in re.finditer(r"^/\\ c = (\d+)\s*\n/\\ l = (\d+)", out, re.M):
            pass
        if not at:
            sys.exit(out[-3000:])
        live = [c for c in live[:int(at.group(1)) - 1] + live[int(at.group(1)):] if c["id"] not in done]
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=400)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    binary = run.build()
    total = [0, 0]
    for pid in a.ids or [f"C{i:02d}" for i in range(1, 30)]:
        r = random.Random(f"{pid}{a.s}")
        work = tempfile.mkdtemp(prefix="gbc-")
        try:
            open(os.path.join(work, "Corrupt.tla"), "w").write(MODULE)
            open(os.path.join(work, "Corrupt.cfg"), "w").write(CFG)
            cases = [c for c in gen.generate(pid, "quick", a.s) if run.weight(c) < 60]
            cases = r.sample(cases, min(len(cases), a.n))
            trace, _ = run.execute(binary, cases, work, "rec")
            recs = [json.loads(x) for x in open(trace)]
            vs, about = [], {}
            for _ in range(4 * a.n):
                if len(vs) >= a.n:
                    break
                x = corrupt(r, r.choice(recs), len(vs))
                if x:
                    about[x[0]["id"]] = x[1]
                    vs.append(x[0])
            parts = run.shards(vs, run.CPUS)
            with ThreadPoolExecutor(run.CPUS) as ex:
                ok = set().union(*ex.map(lambda p: accepted(work, f"p{p[0]}", p[1]), enumerate(parts)))
            total[0] += len(vs)
            total[1] += len(vs) - len(ok)
            print(f"{pid}: {len(vs) - len(ok)} of {len(vs)} changed recordings rejected", flush=True)
            for v in sorted(ok):
                print("   accepted", *about[v], flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    print(f"all: {total[1]} of {total[0]}")


main()
