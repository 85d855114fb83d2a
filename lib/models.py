"""Design models (checked by TLC on their own) and walks: call sequences that TLC derives from the specification and
that the check replays in the library."""
import collections, json, os, time
from concurrent.futures import ThreadPoolExecutor
import run

MC = os.path.join(run.SPEC, "mc")


def M(props, quick, thorough, inv, temporal="", init="SPECIFICATION Spec"):
    return {"props": props.split(), "quick": quick, "thorough": thorough, "inv": inv, "temporal": temporal, "init": init}


# name of the module -> properties, constants per tier (a list of configurations), invariants, temporal properties
MODELS = {
    "MCEdit": M("C01 C02", ["N = 2"], ["N = 3", "N = 4"], "Implements Counted"),
    "MCEditDi": M("C05", ["N = 2"], ["N = 3", "N = 4"], "Implements"),
    "MCContract": M("C02", ["N = 3"], ["N = 4"], "Identifies LoopsKept Stepwise Smaller Connected"),
    "MCCopy": M("C03 C06", ["N = 2\nDirected = TRUE", "N = 2\nDirected = FALSE"], ["N = 2\nDirected = TRUE", "N = 3\nDirected = FALSE"], "Result Halves Equality"),
    "MCGen": M("C04", ["Size = 6"], ["Size = 12", "Size = 20"], "Built NoLoops Counts", "Ends"),
    "MCGraphDefs": M("C03 C07 C11 C12 C13 C18", ["N = 3"], ["N = 4", "N = 5"],
                     "CliqueCount AllCliques CoreNumbers DegeneracyDef Distances DistanceExact ComponentsPartition BipartiteDichotomy Contractions Unions",
                     init="INIT Init\nNEXT Next"),
    "MCIter": M("C08", ["N = 2\nDirected = FALSE", "N = 2\nDirected = TRUE"], ["N = 3\nDirected = FALSE", "N = 3\nDirected = TRUE"], "Sound Complete", "Ends Final"),
    "MCOps": M("C09", ["N = 2\nTimes = {0, 1, 2}"], ["N = 3\nTimes = {0, 1, 2, 3}"], "Result Laws"),
    "MCCompare": M("C10", ["N = 2"], ["N = 3"], "Exact Antisymmetric Counts Lattice"),
    "MCComponents": M("C07 C11", ["N = 3"], ["N = 4"], "Now Balls Layering Joined Cmp"),
    "MCBipartite": M("C12", ["N = 3"], ["N = 4", "N = 5"], "RootsAgree Witness Forest"),
    "MCDegeneracy": M("C13", ["N = 4\nLimit = 1"], ["N = 5\nLimit = 1", "N = 5\nLimit = 2"], "Buckets Result"),
    "MCOrdGraph": M("C14 C29", ["N = 3"], ["N = 4", "N = 5"], "Implements"),
    "MCLayoutDeg": M("C15 C29", ["N = 3"], ["N = 4", "N = 5"], "Records Index Totals Renamed", "Ends"),
    "MCLayoutReach": M("C17", ["N = 3\nR = 2"], ["N = 4\nR = 1", "N = 4\nR = 3", "N = 4\nR = 4", "N = 5\nR = 3"], "Records Whole Totals", "Ends"),
    "MCDefs": M("C16 C17 C20 C21", ["N = 3\nR = 3"], ["N = 4\nR = 4", "N = 5\nR = 5"], "IsDef Laws Distance Monotone"),
    "MCCliques": M("C18", ["N = 4"], ["N = 5", "N = 6"], "Prefix"),
    "MCColour": M("C19", ["N = 4"], ["N = 5", "N = 6"], "Prefix"),
    "MCDomset": M("C20 C24", ["N = 3\nRadii = {0, 1, 2}\nCutoffs = {0, 1}"], ["N = 4\nRadii = {0, 1, 2}\nCutoffs = {0, 1}", "N = 5\nRadii = {1, 2}\nCutoffs = {0, 1}"], "Honest Dominated Members WitnessGraph"),
    "MCScattered": M("C21", ["N = 3\nDs = {0, 1, 2, 3}"], ["N = 4\nDs = {0, 1, 2, 3, 4}", "N = 5\nDs = {0, 1, 2, 3, 4, 5}"], "Result"),
    "MCDtf": M("C22 C23 C24", ["N = 4\nDepth = 4"], ["N = 5\nDepth = 6", "N = 6\nDepth = 4"], "Exact WF Single LayerOne"),
    "MCOracle": M("C25", ["N = 3"], ["N = 4", "N = 5"], "Result Neighbours Fits"),
    "MCText": M("C26 C27", ["Bytes = {48, 49, 51, 32, 10, 43, 65, 194, 160}\nMaxLen = 4\nMaxU32 <- Small"],
                ["Bytes = {48, 49, 51, 32, 10, 43, 65, 194, 160}\nMaxLen = 7\nMaxU32 <- Small"], "Agree", "Sticky"),
    "MCRoundTrip": M("C26", ["N = 2"], ["N = 3"], "Reads"),
    "MCWrite": M("C26", ["MaxLen = 4\nMaxBuf = 2\nMaxKeep = 1\nMaxTrailer = 2\nLazy = FALSE"],
                 ["MaxLen = 9\nMaxBuf = 4\nMaxKeep = 3\nMaxTrailer = 3\nLazy = FALSE"], "Honest Fits", "Ends"),
    "MCColouring": M("C28", ["N = 2\nC = 2"], ["N = 4\nC = 3", "N = 4\nC = 4"], "Keeps Total Separate SameClasses Inverse Majority LastWins"),
}


def cfg_text(m, consts):
    lines = [m["init"]] + ["CONSTANT " + c for c in consts.splitlines()]
    lines += ["INVARIANTS " + m["inv"]] if m["inv"] else []
    lines += ["PROPERTIES " + m["temporal"]] if m["temporal"] else []
    return "\n".join(lines) + "\n"


def tlc(mod, cfg, work, name, workers, heap="6g", timeout=2400):
    path = os.path.join(work, name + ".cfg")
    with open(path, "w") as f:
        f.write(cfg)
    return run.tlc(mod + ".tla", path, work, name, workers, heap=heap, timeout=timeout, extra=("-deadlock",), cwd=MC, defs=("-DTLA-Library=" + run.SPEC,))


def check_one(mod, consts, work, name, workers):
    t0 = time.time()
    rc, out, st = tlc(mod, cfg_text(MODELS[mod], consts), work, name, workers)
    if rc != 0 or "No error has been found" not in out:
        raise run.ToolError(f"design model {mod} ({consts!r}) fails (exit {rc}); this concerns the specification:\n{out[-3000:]}")
    return {"model": mod, "constants": consts.replace("\n", ", "), "invariants": MODELS[mod]["inv"] + " " + MODELS[mod]["temporal"],
            "states": st[1], "transitions": st[0], "wall_s": round(time.time() - t0, 2)}


def check(pid, tier, work):
    """Runs the design models of a property; they concern the specification only."""
    jobs = [(mod, c, f"mc-{mod}-{i}") for mod, m in MODELS.items() if pid in m["props"] for i, c in enumerate(m[tier])]
    quick = tier == "quick"
    with ThreadPoolExecutor(4 if quick else 2) as ex:
        return list(ex.map(lambda j: check_one(j[0], j[1], work, j[2], 2 if quick else 4), jobs))


# ------------------------------------------------------------------------------------------ walks
def W(props, kind, n, ops, quick, thorough):
    return {"props": props.split(), "kind": kind, "n": n, "ops": ops, "quick": quick, "thorough": thorough}


# property -> small instance of the state machine, and how many library steps the walks may take (None: until every
# transition is covered, 0: not in this tier)
WALKS = [
    W("C01", "ug", 3, "edit bulk", None, None),
    W("C01", "ug", 4, "edit", 0, 40000),
    W("C02", "ug", 3, "edit contract", None, None),
    W("C02", "ug", 4, "edit contract", 0, 40000),
    W("C03", "ug2", 2, "edit", 3000, None),
    W("C05", "dg", 2, "edit bulk", None, None),
    W("C05", "dg", 3, "edit bulk", 4000, None),
    W("C06", "dg2", 2, "edit", 3000, None),
    W("C08", "ug", 3, "edit", 1500, None),
    W("C08", "dg", 3, "edit", 1500, 12000),
    W("C14", "ord", 3, "", None, None),
    W("C14", "ord", 4, "", 2500, None),
    W("C23", "dtf", 2, "", None, None),
    W("C28", "col", 2, "", 2500, None),
    W("C28", "col", 3, "", 0, 40000),
]


def transitions(w, work, name):
    """TLC enumerates the instance: start states, and state -> [(operation, next state)]."""
    ops = "{" + ", ".join(f'"{o}"' for o in w["ops"].split()) + "}"
    cfg = f'SPECIFICATION Spec\nINVARIANT Shape\nCONSTANT N = {w["n"]}\nCONSTANT Kind = "{w["kind"]}"\nCONSTANT Ops = {ops}\n'
    t0 = time.time()
    rc, out, st = tlc("MCWalk", cfg, work, name, 1)
    if rc != 0 or "No error has been found" not in out:
        raise run.ToolError(f"walk model {name} fails (exit {rc}):\n{out[-3000:]}")
    starts, succ = {}, collections.defaultdict(list)
    for line in out.splitlines():
        if line.startswith('"@@'):
            d = json.loads(json.loads(line)[2:])
            if "a" in d:
                succ[d["s"]].append((d["a"], d["t"]))
            else:
                starts[d["s"]] = d["first"]
    n = sum(map(len, succ.values()))
    if not starts or not n:
        raise run.ToolError(f"walk model {name} printed no transitions:\n{out[-2000:]}")
    return starts, succ, {"model": "MCWalk", "constants": f'Kind = {w["kind"]}, N = {w["n"]}, Ops = {ops}', "states": st[1],
                          "transitions": st[0], "wall_s": round(time.time() - t0, 2)}


def covering_walks(starts, succ, rng, cap, length=60):
    """Walks from start states that together take every transition (or as many as fit into cap steps)."""
    left = {s: list(range(len(a))) for s, a in succ.items()}
    for l in left.values():
        rng.shuffle(l)
    todo = sum(map(len, left.values()))
    steps = 0
    order = sorted(starts)

    def nearest(s, reach=10 ** 9):
        """Shortest path from s to a state with an open transition."""
        prev, queue = {s: None}, collections.deque([s])
        while queue:
            x = queue.popleft()
            if left.get(x):
                path = []
                while prev[x] is not None:
                    x, i = prev[x]
                    path.append((x, i))
                return path[::-1]
            nxt = list(enumerate(succ.get(x, ())))
            rng.shuffle(nxt)
            for i, (_, t) in nxt:
                if t not in prev:
                    prev[t] = (x, i)
                    queue.append(t)
        return None

    walks = []
    while todo and (cap is None or steps < cap):
        rng.shuffle(order)
        walk = None
        for s in order:
            path = nearest(s)
            if path is not None:
                walk = (s, [])
                break
        if walk is None:
            break
        cur = s
        while len(walk[1]) < length and (cap is None or steps < cap):
            if left.get(cur):
                i = left[cur].pop()
                todo -= 1
                acts = [(cur, i)]
            else:
                acts = path if path else nearest(cur)
                if acts is None or len(walk[1]) + len(acts) >= length + 10:
                    break
            path = None
            for x, i in acts:
                walk[1].append(succ[x][i][0])
                cur = succ[x][i][1]
                steps += 1
        walks.append(walk)
    return [(starts[s], acts) for s, acts in walks if acts], steps, todo


def script(g, w, first, acts):
    """The harness script of one walk."""
    kind, n = w["kind"], w["n"]
    us = list(range(n + 1))
    fix = lambda a: {k: v for k, v in a.items()}
    if kind in ("ug", "dg"):
        extra = [{"op": "iterparts", "h": "g"}] if g.prop == "C08" else []
        ev = [{"op": "new", "h": "g", "k": kind}]
        for a in acts:
            ev += [fix(a), {"op": "obs", "h": "g", "us": us}] + extra
    elif kind in ("ug2", "dg2"):
        ev = [{"op": "new", "h": h, "k": kind[:2]} for h in "gt"]
        for a in acts:
            ev += [fix(a), {"op": "obs", "h": "g", "us": us}, {"op": "obs", "h": "t", "us": us}, {"op": "eq", "h": "g", "g": "t"}]
    elif kind == "ord":
        ev = [{"op": "mk", "h": "g", "k": "ug", "vs": first["vs"], "es": first["es"]}, {"op": "ord_with", "h": "g", "us": first["vs"], "to": "o"}]
        for a in acts:
            ev += [fix(a), {"op": "obs", "h": "o", "us": us}]
    elif kind == "col":
        ev = [{"op": "col_default", "h": h} for h in "gt"]
        for a in acts:
            ev += [fix(a), {"op": "col_obs", "h": "g", "us": us}, {"op": "col_obs", "h": "t", "us": us}, {"op": "col_eq", "h": "g", "g": "t"}]
    elif kind == "dtf":
        ev = [{"op": "mk", "h": "e", "k": "ug", "vs": [], "es": []}, {"op": "orient", "h": "e", "to": "g"}]
        for a in acts:
            ev += [fix(a), {"op": "obs", "h": "g", "us": us}]
    return ev


def scripts(pid, tier, work, g):
    """The walks of a property: (cases, statistics)."""
    todo = [w for w in WALKS if pid in w["props"] and w[tier] != 0]
    with ThreadPoolExecutor(4) as ex:
        found = list(ex.map(lambda j: transitions(j[1], work, f"walk-{j[0]}"), enumerate(todo)))
    stats = []
    for w, (starts, succ, st) in zip(todo, found):
        for s in succ:
            succ[s].sort(key=lambda x: json.dumps(x, sort_keys=True))
        walks, steps, open_ = covering_walks(starts, succ, g.rng, w[tier])
        for first, acts in walks:
            g.case(script(g, w, first, acts), f"walk-{w['kind']}{w['n']}", g.labels(w["n"] + 1))
        st.update(walks=len(walks), library_steps=steps, transitions_not_taken=open_)
        stats.append(st)
    return g.cases, stats
