#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property.

Executes generated API histories against the library in /repo, checks every recorded call against the TLA+
specification with TLC, and model-checks the property's design models.  Exit 0: held on everything explored;
exit 1 with a VIOLATION line: a recorded call is not a step of the specification; exit 2: the check itself failed."""
import hashlib, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import gen, models, run

VERIF = run.VERIF
ASSUMPTIONS = [
    "TLC 1.8, the JVM, cargo/rustc and the harness (harness/src, which only forwards calls and records results) are trusted",
    "the library is sequential: a public call is one atomic step",
    "call histories stay inside the documented preconditions listed in DESIGN.md",
]


def signature(case, idx):
    """Identifies the failing history: the calls (without results) up to the rejected one."""
    evs = [{k: v for k, v in e.items() if k not in ("res", "panic")} for e in case["ev"][:idx]]
    return hashlib.sha256(json.dumps([evs, case.get("labels")], sort_keys=True).encode()).hexdigest()[:16]


def known(pid):
    """Known findings of the property: signature -> description."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else ():
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "finding:" and w[1] == f"property={pid}" and w[2].startswith("history="):
            out[w[2][8:]] = w[3].strip()
    return out


def replay(pid, path, binary, work):
    case = json.load(open(path))["case"]
    case["ev"] = [{k: v for k, v in e.items() if k not in ("res", "panic")} for e in case["ev"]]
    return run.conformance(binary, [case], work)


def violation(pid, rej, seed, tier):
    cid, idx, reason, case = rej
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{signature(case, idx)}.json")
    full = {k: v for k, v in case.items()}
    full["ev"] = case["ev"][:idx]
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "reason": reason, "rejected_call": idx, "case": full}, f, indent=1)
    bad = case["ev"][idx - 1] if 0 < idx <= len(case["ev"]) else {}
    print(f"case {cid}, call {idx}: {reason}")
    print(json.dumps(bad)[:2000])
    if case.get("labels"):
        print("vertex numbers:", json.dumps(case["labels"])[:400])
    print(f"VIOLATION property={pid} replay={path}")


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="gbv-")
    try:
        binary = run.build()
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            res = replay(pid, sys.argv[3], binary, work)
            for r in res.rejections:
                violation(pid, r, seed, tier)
            return 1 if res.rejections else 0
        ms = models.check(pid, tier, work)
        cases = gen.generate(pid, tier, seed)
        extra, gstats = models.scripts(pid, tier, work, gen.Gen(pid, tier, seed))
        t1 = time.time()
        res = run.conformance(binary, cases + extra, work, known=known(pid), signature=signature)
        wall = time.time() - t0
        for s, what in sorted(res.known.items()):
            print(f"KNOWN-FINDING: property={pid} history={s} {what}")
        ids = {c["id"]: c for c in cases + extra}
        samples = []
        for c in (cases + extra)[:: max(1, (len(cases) + len(extra)) // 4)][:4]:
            samples.append({"id": c["id"], "calls": len(c["ev"]), "first_calls": c["ev"][:3]})
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": res.states + sum(m["states"] for m in ms) + sum(m["states"] for m in gstats),
                "transitions": res.transitions + sum(m["transitions"] for m in ms) + sum(m["transitions"] for m in gstats),
                "traces_validated_against_impl": res.traces,
                "samples": samples,
                "trace_states": res.states,
                "calls_validated": res.calls,
                "calls_by_operation": dict(sorted(res.ops.items())),
                "traces_from_specification": len(extra),
                "traces_from_generators": len(cases),
                "design_models": ms,
                "script_models": gstats,
                "known_findings_seen": len(res.known),
                "exhaustive": False,
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(res.rejections),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for m in ms + gstats:
            print(f"model {m['model']}: {m['states']} states, {m['transitions']} transitions, {m['wall_s']}s")
        print(f"{pid} {tier} seed {seed}: {res.traces} traces, {res.calls} calls validated, {len(res.rejections)} rejected; "
              f"{t1 - t0:.1f}s prepare, {wall:.1f}s total")
        for r in res.rejections[:3]:
            violation(pid, r, seed, tier)
        return 1 if res.rejections else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except run.ToolError as x:
        print(f"check error: {x}", file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
