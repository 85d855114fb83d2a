"""Script generators: for every property the API call sequences that the harness executes.  A generator
judges nothing; the recorded results are checked against the specification by TLC."""
import itertools, random
from graphs import *
import genbig, genhuge

U32 = 2 ** 32 - 1


class Gen:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.cases = []
        self.notes = []

    @property
    def deep(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        if self.deep:
            return thorough
        # numbers of random cases, not sizes or probabilities
        return min(10 * quick, thorough) if quick >= 6 and thorough >= 4 * quick else quick

    def case(self, ev, tag="", labels=None, w=None):
        for e in ev:
            if e["op"] in ("obs", "col_obs") and "us" in e:     # the observed vertices are listed once each
                e["us"] = list(dict.fromkeys(e["us"]))
        c = {"id": f"{self.prop}-{tag}-{len(self.cases)}", "ev": ev}
        if labels is not None:
            c["labels"] = labels
        if w:
            c["w"] = w
        self.cases.append(c)

    # ---- ingredients
    def labels(self, k):
        """k increasing real vertex ids for the logical indices 0..k-1."""
        r = self.rng
        m = r.randrange(6)
        if m == 0:
            return list(range(k))
        if m == 1:
            return sorted(r.sample(range(4 * k + 4), k))
        if m == 2:
            return sorted(r.sample(range(10 ** 6), k))
        if m == 3:
            s = set(r.sample(range(U32), max(0, k - 2))) | {0, U32}
            while len(s) < k:
                s.add(r.randrange(U32))
            return sorted(s)[:k] if k < len(s) else sorted(s)
        if m == 4:
            o = r.randrange(1, 10 ** 9)
            return list(range(o, o + k))
        st = r.choice([2, 8, 16, 64, 256, 1024, 65536])
        return [i * st for i in range(k)]

    def mixedge(self, es):
        """The edges in random order and orientation."""
        es = [e if self.rng.random() < .5 else (e[1], e[0]) for e in es]
        self.rng.shuffle(es)
        return [list(e) for e in es]

    def mk(self, g, h="g", k="ug"):
        vs, es = g
        vs = list(vs)
        self.rng.shuffle(vs)
        return {"op": "mk", "h": h, "k": k, "vs": vs, "es": self.mixedge(es) if k == "ug" else self.shuf(es)}

    def shuf(self, xs):
        xs = [list(x) if isinstance(x, tuple) else x for x in xs]
        self.rng.shuffle(xs)
        return xs

    def perm(self, vs):
        vs = list(vs)
        self.rng.shuffle(vs)
        return vs

    def subset(self, vs, p=None):
        p = self.rng.random() if p is None else p
        return [v for v in self.perm(vs) if self.rng.random() < p]

    def sizes(self, lo, hi):
        return self.rng.randint(lo, hi)


PROPS = {}


def prop(f):
    PROPS[f.__name__.upper()] = f
    return f


# ------------------------------------------------------------------------------------- editing
def edit_op(g, h, pool, k, contract=True):
    r = g.rng
    v = lambda: r.choice(pool)
    x = r.random()
    if x < .14:
        return {"op": "add_vertex", "h": h, "u": v()}
    if x < .28:
        return {"op": "remove_vertex", "h": h, "u": v()}
    if x < .52:
        a = v()
        return {"op": "add_edge", "h": h, "u": a, "v": a if r.random() < .2 else v()}
    if x < .68:
        a = v()
        return {"op": "remove_edge", "h": h, "u": a, "v": a if r.random() < .2 else v()}
    if x < .75:
        return {"op": "add_vertices", "h": h, "us": [v() for _ in range(r.randint(0, 4))]}
    if x < .88:
        return {"op": "add_edges", "h": h, "es": [[v(), v()] for _ in range(r.randint(0, 6))]}
    if x < .94:
        return {"op": "remove_loops", "h": h}
    return {"op": "remove_isolates", "h": h}


def histories(g, k, count, length):
    r = g.rng
    for _ in range(count):
        m = r.randint(3, 9)
        pool = list(range(m))
        ev = [r.choice([{"op": "new", "h": "g", "k": k}, {"op": "new", "h": "g", "k": k, "cap": r.randint(0, 9)},
                        {"op": "from_iter", "h": "g", "k": k, "es": [[r.choice(pool), r.choice(pool)] for _ in range(r.randint(0, 8))]}])]
        for i in range(r.randint(length // 2, length)):
            ev.append(edit_op(g, "g", pool, k))
            if r.random() < .35:
                ev.append({"op": "obs", "h": "g", "us": pool})
        ev.append({"op": "obs", "h": "g", "us": pool})
        g.case(ev, "hist", g.labels(m))


def single_ops(pool):
    ops = []
    for u in pool:
        ops += [{"op": "add_vertex", "u": u}, {"op": "remove_vertex", "u": u}]
        for v in pool:
            ops += [{"op": "add_edge", "u": u, "v": v}, {"op": "remove_edge", "u": u, "v": v}]
    ops += [{"op": "remove_loops"}, {"op": "remove_isolates"}]
    return ops


def all_transitions(g, k, n, bulk=6):
    """Every graph on a subset of 0..n-1 (loops included), built through edits, and every edit from it."""
    r = g.rng
    for m in range(n + 1):
        for vsub in itertools.combinations(range(n), m):
            gen = labelled(m, True) if k == "ug" else labelled_di(m, True)
            for _, es in gen:
                es = [(vsub[a], vsub[b]) for a, b in es]
                ev = [g.mk((list(vsub), es), "g", k)]
                ops = single_ops(range(n))
                for _ in range(bulk):
                    ops.append({"op": "add_vertices", "us": [r.randrange(n) for _ in range(r.randint(0, 4))]})
                    ops.append({"op": "add_edges", "es": [[r.randrange(n), r.randrange(n)] for _ in range(r.randint(0, 5))]})
                for o in ops:
                    ev += [{"op": "clone", "h": "g", "to": "t"}, dict(o, h="t"), {"op": "obs", "h": "t", "us": list(range(n))}]
                yield ev


@prop
def c01(g):
    histories(g, "ug", g.n(700, 8000), 30)
    histories(g, "ug", g.n(20, 200), 300)
    evs = list(all_transitions(g, "ug", 3))
    for ev in evs:
        g.case(ev, "trans", g.labels(3))
    big_history(g, "ug", g.n(6, 60))


def big_history(g, k, count):
    """Larger graphs: bulk construction, many removals, few observations."""
    r = g.rng
    for _ in range(count):
        n = r.randint(20, 60)
        pool = list(range(n))
        us = r.sample(pool, 8)
        vs, es = gnp(r, n, r.choice([.05, .15, .4]), .1, k == "dg")
        ev = [g.mk((vs, es), "g", k)]
        for _ in range(40):
            o = edit_op(g, "g", pool, k)
            ev.append(o)
            if r.random() < .1:
                ev.append({"op": "obs", "h": "g", "us": us})
        ev.append({"op": "obs", "h": "g", "us": us})
        g.case(ev, "big", g.labels(n))


@prop
def c05(g):
    histories(g, "dg", g.n(600, 7000), 30)
    histories(g, "dg", g.n(20, 200), 300)
    r = g.rng
    evs = list(all_transitions(g, "dg", 2))
    gs = list(labelled_di(3, True))
    pick = gs if g.deep else r.sample(gs, 120)
    for vs, es in pick:
        ev = [g.mk((vs, es), "g", "dg")]
        for o in single_ops(range(4)) if g.deep else r.sample(single_ops(range(4)), 16):
            ev += [{"op": "clone", "h": "g", "to": "t"}, dict(o, h="t"), {"op": "obs", "h": "t", "us": [0, 1, 2, 3]}]
        evs.append(ev)
    for ev in evs:
        g.case(ev, "trans", g.labels(4))
    big_history(g, "dg", g.n(6, 60))


@prop
def c02(g):
    r = g.rng

    def contractions(vs, us, ev):
        for c in vs:
            for k in range(len(vs) + 1):
                for s in itertools.combinations(vs, k):
                    s = list(s)
                    r.shuffle(s)
                    if s and r.random() < .2:
                        s.append(r.choice(s))
                    ev += [{"op": "clone", "h": "g", "to": "t"}, {"op": "contract_into", "h": "t", "u": c, "us": s}, {"op": "obs", "h": "t", "us": us}]
        for k in range(1, len(vs) + 1):
            for s in itertools.permutations(vs, k):
                if r.random() < (1 if k <= 2 else .15):
                    ev += [{"op": "clone", "h": "g", "to": "t"}, {"op": "contract", "h": "t", "us": list(s) + ([s[0]] if r.random() < .2 else [])}, {"op": "obs", "h": "t", "us": us}]
        for u, v in itertools.permutations(vs, 2):
            ev += [{"op": "clone", "h": "g", "to": "t"}, {"op": "contract_pair", "h": "t", "u": u, "v": v}, {"op": "obs", "h": "t", "us": us}]
        return ev

    for n in (1, 2, 3):
        for gr in labelled(n, True):
            g.case(contractions(gr[0], [0, 1, 2], [g.mk(gr)]), "all", g.labels(3))
    four = list(labelled(4, True))
    for gr in (four if g.deep else r.sample(four, 60)):
        g.case(contractions(gr[0], [0, 1, 2, 3], [g.mk(gr)]), "four", g.labels(4))
    for _ in range(g.n(250, 3000)):
        n = r.randint(5, 14)
        gr = gnp(r, n, r.choice([.15, .3, .5, .8]), r.choice([0, .2, .5]))
        live = list(range(n))
        ev = [g.mk(gr)]
        while len(live) > 1 and len(ev) < 24:
            x = r.random()
            if x < .25:
                u, v = r.sample(live, 2)
                ev.append({"op": "contract_pair", "h": "g", "u": u, "v": v})
                live.remove(v)
            elif x < .45:
                s = [r.choice(live) for _ in range(r.randint(1, 4))]
                ev.append({"op": "contract", "h": "g", "us": s})
                live = [v for v in live if v == s[0] or v not in s]
            elif x < .75:
                c = r.choice(live)
                s = [r.choice(live) for _ in range(r.randint(0, 4))]
                ev.append({"op": "contract_into", "h": "g", "u": c, "us": s})
                live = [v for v in live if v == c or v not in s]
            else:
                o = r.choice([{"op": "add_edge", "h": "g", "u": r.choice(live), "v": r.choice(live)},
                              {"op": "remove_edge", "h": "g", "u": r.choice(live), "v": r.choice(live)},
                              {"op": "add_vertex", "h": "g", "u": r.randrange(n)}])
                if o["op"] == "add_vertex" and o["u"] not in live:
                    live.append(o["u"])
                ev.append(o)
            ev.append({"op": "obs", "h": "g", "us": list(range(n))})
        g.case(ev, "chain", g.labels(n))


def pair_of(g, k, n):
    """Two graphs, often equal or nearly equal, from different histories."""
    r = g.rng
    pool = list(range(n))
    vs, es = gnp(r, n, r.choice([.2, .5]), .2, k == "dg")
    vs = g.subset(vs, .8)
    es = [e for e in es if e[0] in vs and e[1] in vs]
    a = [g.mk((vs, es), "a", k)]
    b = [{"op": "new", "h": "b", "k": k}, {"op": "add_edges", "h": "b", "es": g.mixedge(es) if k == "ug" else g.shuf(es)}, {"op": "add_vertices", "h": "b", "us": g.perm(vs)}]
    x = r.random()
    if x < .3:      # a detour that ends in the same graph
        extra = [v for v in pool if v not in vs]
        if extra:
            u = r.choice(extra)
            w = r.choice(vs + [u])
            b += [{"op": "add_edge", "h": "b", "u": u, "v": w}, {"op": "remove_vertex", "h": "b", "u": u}]
            if w not in vs:
                b += [{"op": "remove_vertex", "h": "b", "u": w}]
    elif x < .75:   # one difference
        b.append(edit_op(g, "b", pool, k))
    elif x < .85 and k == "dg" and es:   # one arc reversed
        u, v = r.choice(es)
        b += [{"op": "remove_edge", "h": "b", "u": u, "v": v}, {"op": "add_edge", "h": "b", "u": v, "v": u}]
    elif x < .95 and len(vs) > 1 and es:  # same counts, one edge moved
        u, v = r.choice(es)
        b += [{"op": "remove_edge", "h": "b", "u": u, "v": v}, {"op": "add_edge", "h": "b", "u": r.choice(vs), "v": r.choice(vs)}]
    return a + b


def copies(g, k):
    r = g.rng
    for _ in range(g.n(350, 4000)):
        n = r.randint(1, 7)
        ev = pair_of(g, k, n)
        ev += [{"op": "eq", "h": "a", "g": "b"}, {"op": "eq", "h": "b", "g": "a"}, {"op": "eq", "h": "a", "g": "a"},
               {"op": "clone", "h": "a", "to": "c"}, {"op": "eq", "h": "a", "g": "c"}]
        for _ in range(r.randint(1, 4)):
            ev += [edit_op(g, r.choice("ac"), list(range(n)), k), {"op": "eq", "h": "a", "g": "c"}]
        ev += [{"op": "obs", "h": "a", "us": list(range(n))}, {"op": "obs", "h": "c", "us": list(range(n))},
               {"op": "normalize", "h": "a"}, {"op": "normalize", "h": "b"}]
        g.case(ev, "copy", g.labels(n))
    # tiny graphs: all ordered pairs compared
    tiny = []
    for n in (0, 1, 2):
        for gr in (labelled(n, True) if k == "ug" else labelled_di(n, True)):
            tiny.append(gr)
    tiny += [([0, 2], []), ([1], []), ([1], [(1, 1)]), ([0, 2], [(0, 2)]), ([1, 2], [(1, 2)])]
    for i, x in enumerate(tiny):
        ev = [g.mk(x, "a", k)]
        for y in tiny:
            ev += [g.mk(y, "b", k), {"op": "eq", "h": "a", "g": "b"}]
        g.case(ev, "tiny", g.labels(3))
    # unions and relabelling on real (sparse) numbers
    for _ in range(g.n(350, 4000)):
        ev = []
        for h in "ab":
            n = r.randint(0, 5)
            names = r.choice([range(n), range(3, n + 3), range(0, 50 * n + 1, 7), [r.randrange(10 ** 6) for _ in range(3 * n + 3)]])
            names = sorted(set(names))
            gr = named(r, gnp(r, min(n, len(names)), .5, .25, k == "dg"), names)
            ev.append(g.mk(gr, h, k))
        ev += [{"op": "disj_union", "h": "a", "g": "b", "to": "u"}, {"op": "disj_union", "h": "u", "g": "a", "to": "w"},
               {"op": "disj_unions", "k": k, "gs": [r.choice("ab") for _ in range(r.randint(0, 4))], "to": "x"},
               {"op": "normalize", "h": "a", "to": "na"}, {"op": "normalize", "h": "u", "to": "nu"},
               {"op": "disj_union", "h": "na", "g": "nu", "to": "y"}, {"op": "eq", "h": "u", "g": "nu"}]
        if r.random() < .3:
            ev += [{"op": "normalize", "h": "x", "to": "nx"}, {"op": "obs", "h": "nx", "us": []}]
        g.case(ev, "union")
    # collected from edge lists
    for _ in range(g.n(60, 600)):
        n = r.randint(1, 6)
        es = [[r.randrange(n), r.randrange(n)] for _ in range(r.randint(0, 9))]
        g.case([{"op": "from_iter", "h": "g", "k": k, "es": es}, {"op": "obs", "h": "g", "us": list(range(n))},
                {"op": "mk", "h": "b", "k": k, "vs": [], "es": es}, {"op": "eq", "h": "g", "g": "b"}], "iter", g.labels(n))


@prop
def c03(g):
    copies(g, "ug")
    r = g.rng
    for _ in range(g.n(60, 600)):   # the second graph of a union in another representation
        a = gnp(r, r.randint(0, 4), .5, .3)
        b = named(r, gnp(r, r.randint(0, 5), .5), range(20))
        ev = [g.mk(a, "a"), g.mk(b, "b"), {"op": "ord_with", "h": "b", "us": g.perm(b[0]), "to": "o"},
              {"op": "deg_with", "h": "b", "us": g.perm(b[0]), "to": "d"},
              {"op": "disj_union", "h": "a", "g": "o", "to": "x"}, {"op": "disj_union", "h": "a", "g": "d", "to": "y"}]
        g.case(ev, "mixed")


@prop
def c06(g):
    copies(g, "dg")


@prop
def c04(g):
    r = g.rng
    m = g.n(7, 14)

    def one(name, p, both=True):
        ev = [{"op": "gen", "h": "g", "k": "ug", "name": name, "p": p}]
        if both:
            ev.append({"op": "gen", "h": "d", "k": "dg", "name": name, "p": p})
            if sum(p) < 6:
                ev.append({"op": "obs", "h": "d", "us": list(range(6))})
        if sum(p) < 6:
            ev.append({"op": "obs", "h": "g", "us": list(range(6))})
        g.case(ev, name)

    for name in ("path", "cycle", "matching", "star", "clique", "independent"):
        for k in list(range(m + 4)) + [r.randint(m + 4, 50) for _ in range(g.n(2, 10))]:
            one(name, [k])
    for a in range(m):
        for b in range(m):
            one("biclique", [a, b])
            one("grid", [a, b])
    for _ in range(g.n(4, 20)):
        one("grid", [r.randint(1, 12), r.randint(1, 12)])
        one("biclique", [r.randint(1, 20), r.randint(1, 20)])
    for k in range(0, 5):
        for p in itertools.product(range(4 if k < 4 else 3), repeat=k):
            one("kpartite", list(p), False)
    for _ in range(g.n(30, 300)):
        one("kpartite", [r.randint(0, 6) for _ in range(r.randint(1, 8))], False)


# ------------------------------------------------------------------------------------- queries
REPS = ("g", "o", "d")


def with_reps(g, gr):
    """Events that build the three undirected representations of a loop-free graph."""
    vs = gr[0]
    return [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}]


def rand_loopfree(g, lo, hi):
    return family(g.rng, g.rng.randint(lo, hi))


@prop
def c07(g):
    r = g.rng

    def queries(h, vs, di, count, allsets=False):
        ev = []
        sets = [list(s) for k in range(len(vs) + 1) for s in itertools.combinations(vs, k)] if allsets else \
            [g.subset(vs) for _ in range(count)] + [[], list(vs)]
        for s in sets:
            s = g.perm(s)
            if s and r.random() < .1:
                s.append(s[0])
            ev += [{"op": "nbhd", "h": h, "us": s}, {"op": "cnbhd", "h": h, "us": s},
                   {"op": "rnbhd", "h": h, "us": s, "r": r.randint(0, 4)}, {"op": "subgraph", "h": h, "us": s, "to": "s"}]
            if di:
                ev += [{"op": "innbhd", "h": h, "us": s}, {"op": "outnbhd", "h": h, "us": s}]
        for v in vs[:6]:
            for d in {0, 1, r.randint(2, 6), len(vs) + 2}:
                ev.append({"op": "rnb", "h": h, "u": v, "r": d})
        ev.append({"op": "rnbhd", "h": h, "us": g.subset(vs), "r": len(vs) + 5})
        if vs and r.random() < .02:    # radii beyond the small integer types
            ev.append({"op": "rnbhd", "h": h, "us": g.subset(vs), "r": r.choice([256, 32768, 65536, 65537])})
        return ev

    for n in range(0, 4):
        for gr in labelled(n, True):
            g.case([g.mk(gr)] + queries("g", gr[0], False, 0, True), "small", g.labels(n))
    fours = list(labelled(4))
    for gr in fours if g.deep else r.sample(fours, 24):
        g.case([g.mk(gr)] + queries("g", gr[0], False, 0, True), "four", g.labels(4))
    for n in (1, 2):
        for gr in labelled_di(n, True):
            g.case([g.mk(gr, "g", "dg")] + queries("g", gr[0], True, 0, True), "di", g.labels(n))
    threes = list(labelled_di(3, True))
    for gr in threes if g.deep else r.sample(threes, 60):
        g.case([g.mk(gr, "g", "dg")] + queries("g", gr[0], True, 0, True), "di3", g.labels(3))
    for _ in range(g.n(100, 1200)):
        gr = rand_loopfree(g, 5, 24)
        ev = with_reps(g, gr)
        for h in REPS:
            ev += queries(h, gr[0], False, 2)
        g.case(ev, "reps", g.labels(len(gr[0])))
    for _ in range(g.n(60, 600)):
        n = r.randint(3, 12)
        gr = gnp(r, n, r.choice([.1, .2, .4]), .2, True)
        g.case([g.mk(gr, "g", "dg")] + queries("g", gr[0], True, 3), "dir", g.labels(n))
    for _ in range(g.n(60, 600)):
        n = r.randint(3, 12)
        gr = gnp(r, n, r.choice([.1, .2, .4]), .4)
        g.case([g.mk(gr)] + queries("g", gr[0], False, 3), "loops", g.labels(n))
    for _ in range(g.n(10, 60)):   # long distances
        gr = shuffled(r, r.choice([path(30), cycle(25), grid(5, 6), tree(r, 40, 3), union(path(12), path(9))]))
        ev = [g.mk(gr)]
        for _ in range(6):
            ev += [{"op": "rnb", "h": "g", "u": r.choice(gr[0]), "r": r.randint(3, 28)},
                   {"op": "rnbhd", "h": "g", "us": r.sample(gr[0], 2), "r": r.randint(2, 12)}]
        g.case(ev, "far", g.labels(len(gr[0])))


@prop
def c08(g):
    r = g.rng

    def it(h, vs):
        return [{"op": "iterparts", "h": h}]

    MODES = {"g": "verts nbs edges mixed", "o": "verts nbs edges mixed left", "d": "verts nbs edges mixed left walk", "r": "verts left walk",
             "t": "verts ins dtfarcs", "dg": "verts arcs ins outs"}

    def modes(h, kind, n):
        return [{"op": "itermodes", "h": h, "it": x, "k": r.choice([0, 1, 2, r.randint(0, n + 2), r.randint(0, 3 * n)])} for x in MODES[kind].split()]

    for n in range(0, 4):
        for gr in labelled(n, True):
            g.case([g.mk(gr)] + it("g", gr[0]) + modes("g", "g", n), "ug", g.labels(n))
    for _ in range(g.n(100, 1200)):
        gr = rand_loopfree(g, 0, 9) if r.random() < .5 else gnp(r, r.randint(0, 8), r.choice([0, .2, .6]), 0)
        n = len(gr[0])
        ev = with_reps(g, gr)
        ev += [{"op": "to_reach", "h": "o", "r": r.randint(1, 4), "weak": r.random() < .5, "to": "r"},
               {"op": "orient", "h": r.choice(REPS), "to": "t"}, {"op": "augment", "h": "t", "d": r.randint(1, 3), "f": r.randint(0, 2)}]
        for h in ("g", "o", "d", "r", "t"):
            ev += modes(h, h, n)
        g.case(ev, "modes", g.labels(max(n, 1)))
        gr = gnp(r, r.randint(0, 7), r.choice([0, .2, .6]), .2, True)
        ev = [g.mk(gr, "g", "dg")] + modes("g", "dg", len(gr[0]))
        if gr[0]:
            ev += [{"op": "remove_vertex", "h": "g", "u": r.choice(gr[0])}] + modes("g", "dg", len(gr[0]))
        g.case(ev, "modesdg", g.labels(max(1, len(gr[0]))))
    for n in range(0, 3):
        for gr in labelled_di(n, True):
            g.case([g.mk(gr, "g", "dg"), {"op": "obs", "h": "g", "us": gr[0]}], "dg", g.labels(n))
    threes = list(labelled_di(3, True))
    for gr in threes if g.deep else r.sample(threes, 100):
        g.case([g.mk(gr, "g", "dg"), {"op": "obs", "h": "g", "us": gr[0]}], "dg3", g.labels(3))
    for n in range(0, g.n(5, 6)):
        for gr in labelled(n) if n < 5 else atlas(n, n):
            ev = with_reps(g, gr)
            for h in REPS:
                ev.append({"op": "obs", "h": h, "us": gr[0]})
            g.case(ev, "reps", g.labels(n))
    for _ in range(g.n(120, 1500)):
        gr = rand_loopfree(g, 3, 20)
        us = gr[0][:4]
        ev = with_reps(g, gr)
        ev += [{"op": "to_reach", "h": "o", "r": r.randint(1, 4), "weak": r.random() < .5, "to": "r"},
               {"op": "orient", "h": r.choice(REPS), "to": "t"}, {"op": "augment", "h": "t", "d": r.randint(1, 3), "f": r.randint(0, 2)}]
        for h in ("g", "o", "d", "r", "t"):
            ev.append({"op": "obs", "h": h, "us": us})
        g.case(ev, "all", g.labels(len(gr[0])))
    for k in ("ug", "dg"):   # after edit histories
        for _ in range(g.n(120, 1200)):
            m = r.randint(3, 8)
            pool = list(range(m))
            ev = [g.mk(gnp(r, m, .5, .3, k == "dg"), "g", k)]
            for _ in range(14):
                ev.append(edit_op(g, "g", pool, k))
                ev.append({"op": "iterparts", "h": "g"} if k == "ug" else {"op": "obs", "h": "g", "us": []})
            g.case(ev, "hist", g.labels(m))


@prop
def c09(g):
    r = g.rng
    for _ in range(g.n(250, 3000)):   # invert, merge, intersect
        n = r.randint(0, 8)
        a = gnp(r, n, r.choice([.2, .5, .9]), .15)
        b = gnp(r, n, r.choice([.2, .5, .9]), .15)
        a = (s := g.subset(a[0], .8), [e for e in a[1] if e[0] in s and e[1] in s])
        b = (s := g.subset(b[0], .8), [e for e in b[1] if e[0] in s and e[1] in s])
        ev = [g.mk(a, "a"), g.mk(b, "b"), {"op": "invert", "h": "a", "to": "i"}, {"op": "invert", "h": "i", "to": "ii"}]
        for op in ("merge", "intersect"):
            for x, y in (("a", "b"), ("b", "a"), ("a", "a"), ("a", "i")):
                ev.append({"op": op, "h": x, "g": y, "to": op[0] + x + y})
        g.case(ev, "sets", g.labels(n))
    for n in range(0, 5):
        for gr in labelled(n):
            g.case([g.mk(gr), {"op": "invert", "h": "g", "to": "i"}] + [{"op": "subdivide", "h": "g", "t": t, "to": "s"} for t in range(4)], "inv")
    for _ in range(g.n(80, 800)):     # subdivisions, also twice and with sparse names
        gr = named(r, rand_loopfree(g, 2, 10), sorted(set(r.randrange(r.choice([30, 5000])) for _ in range(40))))
        h = r.choice(["g", "o", "d"])
        ev = with_reps(g, gr) + [{"op": "subdivide", "h": h, "t": r.randint(0, 4), "to": "s"}, {"op": "subdivide", "h": "s", "t": r.randint(0, 2), "to": "u"},
                                 {"op": "obs", "h": "s", "us": gr[0][:5]}]
        g.case(ev, "sub")
    small = [gr for n in range(0, 4) for gr in atlas(n, n)]
    for a in small:                    # products
        for b in small:
            g.case([g.mk(a, "a"), g.mk(b, "b"), {"op": "cart", "h": "a", "g": "b", "to": "c"}, {"op": "lexi", "h": "a", "g": "b", "to": "l"}], "prod")
    for _ in range(g.n(60, 600)):
        a, b = gnp(r, r.randint(0, 5), .5, .2), gnp(r, r.randint(0, 4), .5, .2)
        n = max(len(a[0]), len(b[0]))
        ev = [g.mk(a, "a"), g.mk(b, "b"), {"op": "cart", "h": "a", "g": "b"}, {"op": "lexi", "h": "a", "g": "b"}, {"op": "lexi", "h": "b", "g": "a"}]
        g.case(ev, "prodl", g.labels(n))
    for _ in range(g.n(40, 400)):      # other representations
        a, b = rand_loopfree(g, 1, 7), rand_loopfree(g, 1, 6)
        k = r.choice(["ord_with", "deg_with"])
        ev = [g.mk(a, "a"), g.mk(b, "b"), {"op": k, "h": "a", "us": g.perm(a[0]), "to": "x"}, {"op": k, "h": "b", "us": g.perm(b[0]), "to": "y"},
              {"op": "invert", "h": "x", "to": "i"}, {"op": "merge", "h": "x", "g": "y", "to": "m"}, {"op": "intersect", "h": "x", "g": "y", "to": "n"},
              {"op": "cart", "h": "x", "g": "y", "to": "c"}, {"op": "lexi", "h": "y", "g": "x", "to": "l"}]
        g.case(ev, "reps")
    for _ in range(g.n(60, 600)):      # digraphs count as their underlying graphs
        n = r.randint(1, 5)
        ev = [g.mk(gnp(r, n, .4, .2, True), "a", "dg"), g.mk(gnp(r, n, .4, .2, True), "b", "dg"), {"op": "invert", "h": "a", "to": "i"},
              {"op": "merge", "h": "a", "g": "b", "to": "m"}, {"op": "intersect", "h": "a", "g": "b", "to": "n"}]
        g.case(ev, "dg", g.labels(n))


@prop
def c10(g):
    r = g.rng
    for k in ("ug", "dg"):
        tiny = []
        for n in (0, 1, 2):
            tiny += list(labelled(n, True) if k == "ug" else labelled_di(n, True))
        tiny += [([1], []), ([1], [(1, 1)]), ([0, 2], []), ([0, 2], [(0, 2)]), ([0, 1, 2], []), ([0, 1, 2], [(0, 1)]), ([0, 1, 2], [(1, 2)]), ([0, 1, 2], [(0, 1), (1, 2)])]
        for x in tiny:
            ev = [g.mk(x, "a", k)]
            for y in tiny:
                ev += [g.mk(y, "b", k), {"op": "compare", "h": "a", "g": "b"}]
            g.case(ev, "tiny" + k, g.labels(3))
        for _ in range(g.n(300, 4000)):
            n = r.randint(1, 8)
            ev = pair_of(g, k, n)
            ev += [{"op": "compare", "h": "a", "g": "b"}, {"op": "compare", "h": "b", "g": "a"}, {"op": "compare", "h": "a", "g": "a"}]
            for _ in range(3):
                ev += [edit_op(g, "b", list(range(n)), k), {"op": "compare", "h": "a", "g": "b"}, {"op": "compare", "h": "b", "g": "a"}]
            g.case(ev, "pair" + k, g.labels(n))
    threes = list(labelled(3, True))
    for x in r.sample(threes, g.n(20, 64)):
        ev = [g.mk(x, "a")]
        for y in threes:
            ev += [g.mk(y, "b"), {"op": "compare", "h": "a", "g": "b"}]
        g.case(ev, "three", g.labels(3))
    for _ in range(g.n(100, 1200)):
        a = rand_loopfree(g, 2, 14)
        b = (list(a[0]), [e for e in a[1] if r.random() < .9])
        if r.random() < .4:
            v = r.choice(a[0])
            b = ([x for x in b[0] if x != v], [e for e in b[1] if v not in e])
        k = r.choice(["ord_with", "deg_with"])
        ev = [g.mk(a, "a"), g.mk(b, "b"), {"op": k, "h": "a", "us": g.perm(a[0]), "to": "x"}, {"op": k, "h": "b", "us": g.perm(b[0]), "to": "y"},
              {"op": "compare", "h": "a", "g": "b"}, {"op": "compare", "h": "b", "g": "a"},
              {"op": "compare", "h": "x", "g": "y"}, {"op": "compare", "h": "y", "g": "x"}, {"op": "compare", "h": "x", "g": "x"}]
        g.case(ev, "reps", g.labels(len(a[0])))


def each_small(g, f, tag, nmax=5, loops=True, di=False):
    for n in range(0, nmax + 1):
        for gr in labelled(n):
            f(gr, tag)
    if loops:
        for n in range(1, 4):
            for gr in labelled(n, True):
                f(gr, tag + "l")


@prop
def c11(g):
    r = g.rng

    def f(gr, tag, k="ug"):
        g.case([g.mk(gr, "g", k), {"op": "components", "h": "g"}], tag, g.labels(len(gr[0])))

    each_small(g, f, "small", g.n(4, 5))
    for gr in atlas(5, g.n(5, 6)):
        f(shuffled(r, gr), "atlas")
    for n in range(0, 4):
        gs = list(labelled_di(n, n < 3))
        for gr in gs:
            f(gr, "dg", "dg")
    for _ in range(g.n(300, 4000)):
        parts = [family(r, r.randint(1, 8)) for _ in range(r.randint(1, 5))]
        gr = shuffled(r, union(*parts))
        ev = with_reps(g, gr)
        ev += [{"op": "components", "h": h} for h in REPS]
        g.case(ev, "reps", g.labels(len(gr[0])))
    for _ in range(g.n(150, 2000)):
        n = r.randint(2, 14)
        f(gnp(r, n, r.choice([.03, .07, .12]), .2, True), "dgr", "dg")
        f(gnp(r, n, r.choice([.05, .12, .2]), .2), "ugr")
    for _ in range(g.n(4, 30)):
        f(shuffled(r, union(path(r.randint(30, 80)), cycle(r.randint(3, 40)), star(r.randint(1, 50)), (list(range(9)), []))), "long")
    for _ in range(g.n(12, 80)):   # dense parts beside sparse ones, in any order: most edges join nothing new
        dense = r.choice([clique(r.randint(8, 26)), kpartite(r.randint(5, 12), r.randint(5, 12)), gnp(r, 20, .8)])
        f(shuffled(r, union(*([dense] + [r.choice([path, cycle, star])(r.randint(1, 4)) for _ in range(r.randint(1, 6))]))), "dense", r.choice(["ug", "ug", "dg"]))
    for k in ("ug", "dg"):
        for _ in range(g.n(60, 600)):
            n = r.randint(2, 7)
            ev = [{"op": "new", "h": "g", "k": k}]
            for _ in range(20):
                ev += [edit_op(g, "g", list(range(n)), k), {"op": "components", "h": "g"}]
            g.case(ev, "hist", g.labels(n))


@prop
def c12(g):
    r = g.rng

    def f(gr, tag, k="ug"):
        g.case([g.mk(gr, "g", k), {"op": "bipartite", "h": "g"}], tag, g.labels(len(gr[0])))

    each_small(g, f, "small", 4)
    for gr in (labelled(5) if g.deep else atlas(5, 5)):
        f(shuffled(r, gr), "five")
    for gr in atlas(6, g.n(6, 7)):
        for _ in range(g.n(2, 3)):
            f(shuffled(r, gr), "atlas")
    for _ in range(g.n(900, 12000)):
        n = r.randint(5, 22)
        x = r.random()
        if x < .35:    # bipartite with a few extra edges
            a = n // 2
            es = [(i, j) for i in range(a) for j in range(a, n) if r.random() < .35]
            for _ in range(r.randint(0, 2)):
                u, v = r.sample(range(n), 2)
                if (u, v) not in es and (v, u) not in es:
                    es.append((u, v))
            gr = shuffled(r, (list(range(n)), es))
        elif x < .6:   # odd or even cycles hanging off trees
            gr = union(tree(r, r.randint(1, 8)), cycle(r.randint(3, 13)))
            vs, es = gr
            es = es + [(0, len(vs) - 1)]
            gr = shuffled(r, (vs, es))
        elif x < .7:   # loops
            gr = shuffled(r, gnp(r, n, .12, .05))
        else:
            gr = family(r, n)
        f(gr, "rand")
    for _ in range(g.n(60, 600)):
        gr = rand_loopfree(g, 3, 15)
        g.case(with_reps(g, gr) + [{"op": "bipartite", "h": h} for h in REPS], "reps", g.labels(len(gr[0])))
    for _ in range(g.n(100, 1000)):
        n = r.randint(2, 9)
        f(gnp(r, n, r.choice([.1, .2]), r.choice([0, .05]), True), "dg", "dg")


# ------------------------------------------------------------------------------------- orders
@prop
def c13(g):
    r = g.rng

    def f(gr, tag, reps=False):
        if reps:
            ev = with_reps(g, gr) + [{"op": "degeneracy", "h": h} for h in REPS]
        else:
            ev = [g.mk(gr), {"op": "degeneracy", "h": "g"}]
        g.case(ev, tag, g.labels(len(gr[0])), w=None if len(gr[0]) < 60 else 10 + len(gr[1]) / 8)

    each_small(g, f, "small", 4, loops=False)
    for gr in (labelled(5) if g.deep else []):
        f(gr, "five")
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas")
    for _ in range(g.n(500, 8000)):
        f(rand_loopfree(g, 4, 26), "rand", r.random() < .2)
    for _ in range(g.n(40, 400)):   # cores of different depth glued together
        gr = union(*(family(r, r.randint(3, 14), ["clq", "dense", "kdeg", "tree", "cyclechord"]) for _ in range(r.randint(2, 4))))
        vs, es = gr
        es = list(es)
        for _ in range(r.randint(0, 12)):
            u, v = r.sample(vs, 2)
            if (u, v) not in es and (v, u) not in es:
                es.append((u, v))
        f(shuffled(r, (vs, es)), "glue")
    # around the limit of exactness and in the exponential buckets
    big = [clique(k) for k in (128, 129, 130, 131, 132, 133, 136, 137, 144, 145)] + [star(127), star(129), star(200), star(300),
           kpartite(129, 129), kpartite(128, 140), kpartite(3, 200), union(clique(20), star(150), path(5))]
    if g.deep:
        big += [clique(k) for k in (127, 140, 150, 160, 161, 190, 192, 193, 256, 257, 260)] + [kpartite(100, 100, 100), kpartite(2, 2, 260), star(600), kpartite(130, 131), union(clique(135), star(260))]
        big += [gnp(r, 150, p) for p in (.8, .9, .95)] + [gnp(r, 200, p) for p in (.3, .6, .7, .9)] + [kdeg(r, 300, 5)]
    else:
        big += [gnp(r, 150, .9), kdeg(r, 180, 4)]
    for k in ((130, 131) if not g.deep else (128, 129, 130, 130, 130, 131, 131, 132, 145)):   # a clique whose vertices lose many neighbours before they are taken
        t = r.choice([2, 3, 5, 8, 20])
        big.append((list(range(k + 2 * t + 1)), sorted({(i, k + r.randrange(2 * t + 1)) for i in range(k) for _ in range(t)}) + clique(k)[1]))
    for gr in big:
        f(shuffled(r, gr) if r.random() < .5 else gr, "big")


def orders(g, vs, k):
    vs = list(vs)
    for i in range(k):
        yield g.perm(vs)


def swap_event(g, vs):
    r = g.rng
    x = r.random()
    n = len(vs)
    if x < .06:
        u = r.choice(vs)
        return {"op": "swap", "h": "o", "u": u, "v": u}
    if x < .12:
        return {"op": "swap", "h": "o", "u": r.choice(vs), "v": n} if r.random() < .5 else {"op": "swap", "h": "o", "u": n, "v": r.choice(vs)}
    u = r.choice(vs)
    v = r.choice(vs)
    return {"op": "swap", "h": "o", "u": u, "v": v}


@prop
def c14(g):
    r = g.rng
    for n in range(0, 5):      # all graphs, one order, all swaps (pairs), then random swap chains
        for gr in labelled(n):
            vs = gr[0]
            us = list(range(n + 1))
            ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "obs", "h": "o", "us": us}]
            pairs = list(itertools.product(range(n + 1), repeat=2))
            r.shuffle(pairs)
            for u, v in pairs:
                ev += [{"op": "swap", "h": "o", "u": u, "v": v}, {"op": "obs", "h": "o", "us": us}]
            g.case(ev, "pairs", g.labels(n + 1))
    for gr in atlas(5, g.n(5, 6)):
        n = len(gr[0])
        us = list(range(n + 1))
        for _ in range(g.n(2, 6)):
            h = shuffled(r, gr)
            ev = [g.mk(h), {"op": "ord_with", "h": "g", "us": g.perm(h[0]), "to": "o"}]
            for _ in range(12):
                ev += [swap_event(g, h[0]), {"op": "obs", "h": "o", "us": us}]
            g.case(ev, "atlas", g.labels(n + 1))
    for _ in range(g.n(150, 2000)):
        gr = rand_loopfree(g, 4, 18)
        vs = gr[0]
        n = len(vs)
        ev = [g.mk(gr), r.choice([{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "ord_deg", "h": "g", "to": "o"}]), {"op": "obs", "h": "o", "us": list(range(n + 1))}]
        for _ in range(14):
            ev.append(swap_event(g, vs))
            x = r.random()
            if x < .3:
                ev.append({"op": "obs", "h": "o", "us": list(range(n + 1)) if n < 10 else vs[:5]})
            elif x < .5:
                ev += [{"op": "leftmost", "h": "o", "us": g.subset(vs, .3)}, {"op": "rightmost", "h": "o", "us": g.subset(vs, .3)}]
        ev.append({"op": "obs", "h": "o", "us": vs[:6]})
        g.case(ev, "chain", g.labels(n + 1))
    for _ in range(g.n(150, 1500)):
        gr = rand_loopfree(g, 0, 16)
        ev = [g.mk(gr), {"op": "ord_deg", "h": "g", "to": "o"}, {"op": "obs", "h": "o", "us": gr[0][:5]}]
        g.case(ev, "deg", g.labels(len(gr[0]) or 1))
    for gr in [clique(60), kpartite(40, 45), star(90)] + ([clique(128), clique(130)] if g.deep else []):
        ev = [g.mk(gr), {"op": "ord_deg", "h": "g", "to": "o"}]
        g.case(ev, "degbig")


@prop
def c15(g):
    r = g.rng

    def f(gr, tag, names=None):
        vs = gr[0]
        n = len(vs)
        us = list(vs) + ([n] if names is None else [])
        how = r.choice([{"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "deg_from", "h": "g", "to": "d"}, {"op": "to_deg", "h": "o", "to": "d"}])
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}]
        for _ in range(r.randint(0, 2)):
            if n > 1:
                ev.append({"op": "swap", "h": "o", "u": r.choice(vs), "v": r.choice(vs)})
        ev += [how, {"op": "obs", "h": "d", "us": us if n < 12 else us[:6]}]
        if vs:
            ev += [{"op": "leftmost", "h": "d", "us": g.subset(vs, .4)}, {"op": "rightmost", "h": "d", "us": g.subset(vs, .4)}]
        if names is None:
            # the relabelled graph lives on 0..n-1, so no label table here
            ev += [{"op": "clone", "h": "d", "to": "e"}, {"op": "normalize", "h": "e"}, {"op": "obs", "h": "e", "us": list(range(n + 1)) if n < 12 else list(range(6))},
                   {"op": "normalize", "h": "e"}, {"op": "obs", "h": "d", "us": vs[:4]}, {"op": "deg_with", "h": "e", "us": g.perm(range(n)), "to": "x"}, {"op": "obs", "h": "x", "us": list(range(min(n, 5)))}]
        g.case(ev, tag, names)

    for n in range(0, 5):
        for gr in labelled(n):
            f(gr, "small")
            f(gr, "smalll", g.labels(n))
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas")
    for _ in range(g.n(250, 3500)):
        gr = rand_loopfree(g, 3, 22)
        if r.random() < .5:
            gr = named(r, gr, sorted(set(r.randrange(5000) for _ in range(3 * len(gr[0]) + 9))))
            n = len(gr[0])
            f_sparse(g, gr)
        else:
            f(gr, "rand", r.choice([None, g.labels(len(gr[0]))]))
    # the builder called directly
    for _ in range(g.n(100, 1200)):
        n = r.randint(0, 9)
        us = g.perm(range(n))
        dens = r.choice([.15, .5, .9])
        sets = [[v for v in us[:i] if r.random() < dens] for i in range(n)]
        ev = [{"op": "deg_build", "us": us, "sets": sets, "to": "d"}, {"op": "obs", "h": "d", "us": us[:5] + [n]}]
        lab = None if r.random() < .5 else g.labels(n + 1)
        if lab is None:
            ev += [{"op": "normalize", "h": "d"}, {"op": "obs", "h": "d", "us": list(range(min(n + 1, 6)))}]
        g.case(ev, "build", lab)


def f_sparse(g, gr):
    """Sparse real names, then normalisation."""
    vs = gr[0]
    n = len(vs)
    ev = [g.mk(gr), {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "obs", "h": "d", "us": vs[:6] + [7777]}, {"op": "normalize", "h": "d"},
          {"op": "obs", "h": "d", "us": list(range(min(n + 1, 8)))}]
    g.case(ev, "sparse")


@prop
def c16(g):
    r = g.rng

    def f(gr, tag, rs, full=True):
        vs = gr[0]
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}]
        for h in ("o", "d"):
            for k in rs:
                ev += [{"op": "sreach_sets", "h": h, "r": k}, {"op": "wreach_sets", "h": h, "r": k}]
                if full:
                    ev += [{"op": "sreach_sizes", "h": h, "r": k}, {"op": "wreach_sizes", "h": h, "r": k}]
                for u in (vs if full else r.sample(vs, min(3, len(vs)))):
                    ev += [{"op": "sreach_set", "h": h, "u": u, "r": k}, {"op": "right_bfs", "h": h, "u": u, "r": k}]
            if vs:
                ev += [{"op": "right_bfs", "h": h, "u": r.choice(vs), "r": 0}, {"op": "sreach_set", "h": h, "u": r.choice(vs), "r": 0}]
            if r.random() < .1:      # radius 0, and far more than the graph has vertices
                for k in (0, r.choice([300, 33000, 65536, 70001])):
                    ev += [{"op": o, "h": h, "r": k} for o in ("sreach_sets", "wreach_sets", "sreach_sizes", "wreach_sizes") if len(vs) < 9]
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 4):
        for gr in labelled(n):
            f(gr, "small", [1, 2, 3, 4])
    for gr in labelled(4):
        f(gr, "four", [1, 2, 3] if g.deep else [r.randint(1, 4)])
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", [r.randint(1, 6)])
    if g.deep:
        for gr in labelled(5):
            f(gr, "five", [r.randint(1, 5)])
    for _ in range(g.n(150, 2500)):
        f(rand_loopfree(g, 6, 22), "rand", [r.randint(1, 6)], False)
    for _ in range(g.n(8, 60)):
        gr = shuffled(r, r.choice([path(30), cycle(25), grid(5, 6), tree(r, 35, 3)]))
        f(gr, "long", [r.randint(5, 14)], False)
    for _ in range(g.n(20, 200)):   # paths and cycles along the order: the reach is as long as the graph
        n = r.randint(5, 16)
        gr = r.choice([path, cycle])(n) if r.random() < .7 else shuffled(r, union(path(n), path(r.randint(1, 4))))
        vs = sorted(gr[0])
        if r.random() < .5:
            a = r.randrange(n)
            vs = vs[a:] + vs[:a]
        if r.random() < .3:
            vs = vs[::-1]
        h, op = r.choice([("o", "ord_with"), ("d", "deg_with")])
        ev = [g.mk(gr), {"op": op, "h": "g", "us": vs, "to": h}]
        for k in {r.randint(n // 2, n), r.randint(1, n), n - 1, n + r.randint(0, 9)}:
            ev += [{"op": o, "h": h, "r": k} for o in ("sreach_sets", "wreach_sets", "sreach_sizes", "wreach_sizes")]
            ev += [{"op": "sreach_set", "h": h, "u": r.choice(vs), "r": k}, {"op": "right_bfs", "h": h, "u": r.choice(vs), "r": k}]
        g.case(ev, "along", g.labels(len(vs)))


@prop
def c17(g):
    r = g.rng

    def f(gr, tag, ks, order=None):
        vs = gr[0]
        us = list(vs) if len(vs) < 10 else vs[:5]
        us = us + [len(vs)]
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": order or g.perm(vs), "to": "o"}]
        for k, weak in ks:
            ev += [{"op": "to_reach", "h": "o", "r": k, "weak": weak, "to": "r"}, {"op": "obs", "h": "r", "us": us}]
            if vs and r.random() < .3:
                ev += [{"op": "leftmost", "h": "r", "us": g.subset(vs, .4)}, {"op": "rightmost", "h": "r", "us": g.subset(vs, .4)}]
        if vs and r.random() < .4:
            ev += [{"op": "swap", "h": "o", "u": r.choice(vs), "v": r.choice(vs)}, {"op": "to_reach", "h": "o", "r": 2, "weak": True, "to": "q"}, {"op": "obs", "h": "q", "us": us}, {"op": "obs", "h": "r", "us": us}]
        g.case(ev, tag, g.labels(len(vs) + 1))

    both = [(k, w) for k in (1, 2, 3, 4) for w in (True, False)]
    for n in range(0, 4):
        for gr in labelled(n):
            f(gr, "small", both)
    for gr in labelled(4):
        f(gr, "four", both if g.deep else r.sample(both, 3))
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", r.sample(both, 2))
    for _ in range(g.n(200, 3000)):
        f(rand_loopfree(g, 6, 20), "rand", r.sample(both, 2))
    # the builder called directly: distances in any pattern, with gaps
    for _ in range(g.n(250, 3000)):
        n = r.randint(0, 9)
        us = g.perm(range(n))
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 11])
        dens = r.choice([.15, .5, .9])
        ds = r.sample(range(1, k + 1), r.randint(1, min(k, 3)))
        sets = [[[v, r.choice(ds)] for v in us[:i] if r.random() < dens] for i in range(n)]
        ev = [{"op": "reach_build", "us": us, "r": k, "sets": sets, "to": "r"}, {"op": "obs", "h": "r", "us": us[:4] + [n]}]
        if n:
            ev += [{"op": "leftmost", "h": "r", "us": g.subset(us, .4)}, {"op": "rightmost", "h": "r", "us": g.subset(us, .4)}]
        g.case(ev, "build", g.labels(n + 1))


@prop
def c18(g):
    r = g.rng

    def f(gr, tag, k=1, reach=True):
        vs = gr[0]
        ev = [g.mk(gr)]
        for _ in range(k):
            ev += [{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "cliques", "h": "o"},
                   {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "cliques", "h": "d"}]
            if reach:
                ev += [{"op": "to_reach", "h": "o", "r": r.randint(1, 3), "weak": r.random() < .5, "to": "r"}, {"op": "cliques", "h": "r"}]
        if vs:
            ev += [{"op": "swap", "h": "o", "u": r.choice(vs), "v": r.choice(vs)}, {"op": "cliques", "h": "o"}]
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 5):
        for gr in labelled(n):
            f(gr, "small", 2)
    if g.deep:
        for gr in labelled(5):
            f(gr, "five", 2)
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", 2)
    for _ in range(g.n(400, 6000)):
        f(rand_loopfree(g, 5, 14), "rand", 2)
    for _ in range(g.n(60, 800)):
        f(gnp(r, r.randint(7, 13), r.choice([.5, .6, .7, .8, .9])), "dense", 2)
    for gr in [kpartite(2, 2, 2, 2), kpartite(3, 3, 3), clique(10), kpartite(1, 2, 3, 4)]:
        f(shuffled(r, gr), "kpart", 2)


@prop
def c19(g):
    r = g.rng

    def f(gr, tag, k=2):
        vs = gr[0]
        ev = [g.mk(gr)]
        for _ in range(k):
            ev += [{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "colour", "h": "o"},
                   {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "colour", "h": "d"}]
        ev += [{"op": "to_reach", "h": "o", "r": r.randint(1, 3), "weak": r.random() < .5, "to": "r"}, {"op": "colour", "h": "r"}]
        if vs:
            ev += [{"op": "swap", "h": "o", "u": r.choice(vs), "v": r.choice(vs)}, {"op": "colour", "h": "o"}]
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 5):
        for gr in labelled(n):
            f(gr, "small")
    if g.deep:
        for gr in labelled(5):
            f(gr, "five")
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas")
    for _ in range(g.n(400, 6000)):
        f(rand_loopfree(g, 5, 24), "rand")
    for gr in [clique(30), kpartite(10, 10, 10), grid(6, 6), star(40)]:
        f(shuffled(r, gr), "named")


def target(g, vs):
    x = g.rng.random()
    if x < .12:
        return []
    if x < .3:
        return list(vs)
    if x < .5:
        return g.rng.sample(vs, min(len(vs), g.rng.randint(1, 3)))
    return g.subset(vs)


@prop
def c20(g):
    r = g.rng

    def f(gr, tag, rs, k=1):
        vs = gr[0]
        ev = [g.mk(gr)]
        for _ in range(k):
            ev += [{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}]
            for h in ("o", "d"):
                for d in rs:
                    t = target(g, vs)
                    for w in (True, False):
                        ev.append({"op": "domset", "h": h, "r": d, "wit": w})
                    for w in (True, False):
                        ev.append({"op": "domset", "h": h, "r": d, "wit": w, "us": t})
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 5):
        for gr in labelled(n):
            f(gr, "small", [0, 1, 2, 3] if n < 4 else [r.randint(0, 3)])
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", [r.randint(0, 3)])
    for _ in range(g.n(350, 5000)):
        f(rand_loopfree(g, 6, 24), "rand", [r.randint(0, 4)])
    for _ in range(g.n(15, 150)):   # often-used dominators: the (2r)^2 cutoff
        parts = [star(r.randint(5, 24)) for _ in range(r.randint(1, 3))]
        vs, es = union(*parts)
        es = list(es)
        for _ in range(r.randint(0, 6)):
            u, v = r.sample(vs, 2)
            if (u, v) not in es and (v, u) not in es:
                es.append((u, v))
        f(shuffled(r, (vs, es)), "star", [r.randint(1, 2)], 2)
    for _ in range(g.n(10, 80)):
        f(shuffled(r, r.choice([grid(6, 6), path(40), cycle(33), tree(r, 45), tree(r, 45, 4)])), "wide", [r.randint(1, 5)])
    for _ in range(g.n(6, 40)):     # radii whose multiples and squares leave the small integer types
        f(shuffled(r, r.choice([path(r.randint(1, 4)), star(3), cycle(5), union(path(2), path(3))])), "far",
          [r.choice([127, 128, 255, 256, 32767, 32768, 40000, 65535, 65536, 70000])])


@prop
def c21(g):
    r = g.rng

    def f(gr, tag, ds, k=1):
        vs = gr[0]
        ev = [g.mk(gr)]
        for _ in range(k):
            ev += [{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}]
            for h in ("o", "d"):
                for d in ds:
                    ev += [{"op": "scattered", "h": h, "d": d, "us": list(vs)}, {"op": "scattered", "h": h, "d": d, "us": target(g, vs)}]
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 5):
        for gr in labelled(n):
            f(gr, "small", [0, 1, 2, 3, 4, 5] if n < 4 else r.sample(range(0, 6), 2))
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", r.sample(range(1, 6), 2), g.n(1, 3))
    for _ in range(g.n(400, 6000)):
        f(rand_loopfree(g, 6, 24), "rand", [r.randint(1, 8)], 2)
    for _ in range(g.n(20, 150)):
        f(shuffled(r, r.choice([grid(5, 6), path(30), cycle(25), tree(r, 35), tree(r, 35, 4), union(path(12), cycle(9))])), "wide", [r.randint(2, 9)], 2)
    for _ in range(g.n(6, 40)):     # distances whose squares leave the small integer types
        f(shuffled(r, r.choice([path(r.randint(1, 4)), star(3), cycle(5), union(path(2), path(3))])), "far",
          [r.choice([127, 128, 255, 256, 65535, 65536, 70000])])


# ------------------------------------------------------------------------------------- augmentations
@prop
def c22(g):
    r = g.rng

    def f(gr, tag, steps, us=None):
        vs = gr[0]
        ev = [g.mk(gr)]
        if r.random() < .3:
            ev.append({"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"})
            ev.append({"op": "orient", "h": "o", "to": "t"})
        else:
            ev.append({"op": "orient", "h": "g", "to": "t"})
        us = us or (vs if len(vs) <= 12 else r.sample(vs, 10))
        ev.append({"op": "small_dist", "h": "t", "us": us})
        for d, k in steps:
            if r.random() < .2:     # a look at a layer in between
                ev.append({"op": "layer", "h": "t", "d": r.randint(1, 6), "us": us[:3]})
                if r.random() < .5:
                    ev.append({"op": "small_dist", "h": "t", "us": us})
            ev += [{"op": "augment", "h": "t", "d": d, "f": k}, {"op": "small_dist", "h": "t", "us": us}]
        g.case(ev, tag, g.labels(len(vs)))

    def fr():
        return r.randint(0, 2) if r.random() < .9 else r.randint(3, 6)

    def steps():
        x = r.random()
        if x < .3:
            return [(r.randint(1, 6), fr())]
        return [(d, fr()) for d in sorted(r.sample(range(1, 7), r.randint(1, 3)))] + ([(r.randint(1, 3), 1)] if x > .9 else [])

    for n in range(0, 5):
        for gr in labelled(n):
            for k in (0, 1, 2):
                f(gr, "small", [(2, k), (3, k), (4, k)] if g.deep else [(r.randint(2, 4), k)])
    if g.deep:
        for gr in labelled(5):
            f(gr, "five", [(2, fr()), (3, fr()), (4, fr()), (5, 1)])
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", [(2, fr()), (3, fr()), (r.randint(4, 6), fr())])
    for _ in range(g.n(250, 4000)):
        f(rand_loopfree(g, 6, 16), "rand", steps())
    for _ in range(g.n(25, 300)):
        f(shuffled(r, r.choice([path(18), cycle(17), grid(4, 5), tree(r, 22), tree(r, 22, 3), subdivided(clique(5), 1)])), "wide", steps())


@prop
def c23(g):
    r = g.rng
    for _ in range(g.n(350, 4000)):
        gr = rand_loopfree(g, 1, 9)
        vs = gr[0]
        n = len(vs)
        us = list(range(n + 2))
        src = r.choice(["g", "o", "d"])
        ev = with_reps(g, gr) + [r.choice([{"op": "orient", "h": src, "to": "t"}, {"op": "orient_deep", "h": src, "d": r.randint(0, 3), "to": "t"}]),
                                 {"op": "obs", "h": "t", "us": us}]
        present = set(vs)
        depth = 1
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < .3:
                d = r.randint(1, 4)
                ev.append({"op": "augment", "h": "t", "d": d, "f": r.randint(0, 2)})
                depth = max(depth, d)
            elif x < .6:
                u, v, w = r.randrange(n + 2), r.randrange(n + 2), r.randint(1, 5)
                ev.append({"op": "dtf_arc", "h": "t", "u": u, "v": v, "w": w})
                present |= {u, v}
                depth = max(depth, w)
            elif x < .68:
                u = r.randrange(n + 2)
                ev.append({"op": "add_vertex", "h": "t", "u": u})
                present.add(u)
            elif x < .84:
                d = r.randint(1, 5)
                ev.append({"op": "layer", "h": "t", "d": d, "us": sorted(present)})
                if d > depth and r.random() < .5:     # a vertex that comes after such a look
                    u = r.randrange(n + 2)
                    ev.append({"op": "add_vertex", "h": "t", "u": u})
                    present.add(u)
            else:
                ev.append({"op": "layer_new", "h": "t", "d": r.randint(1, depth), "us": sorted(present)})
            ev.append({"op": "obs", "h": "t", "us": us})
        for d in range(1, depth + 1):
            ev.append({"op": "layer_new", "h": "t", "d": d, "us": sorted(present)})
        pairs = [[u, v] for u in us for v in us if u != v]
        ev += [{"op": "edge_subgraph", "h": "t", "es": g.mixedge(gr[1]) + r.sample(pairs, min(len(pairs), 3)), "to": "s"},
               {"op": "edge_subgraph", "h": "t", "es": r.sample(pairs, min(len(pairs), r.randint(0, 6))), "to": "s2"},
               {"op": "obs", "h": "s", "us": us}, {"op": "dtf_und", "h": "t", "to": "x"}, {"op": "innbhd", "h": "t", "us": g.subset(sorted(present), .4)}]
        g.case(ev, "mix", g.labels(n + 2))
    for n in range(0, 5):
        for gr in labelled(n):
            ev = [g.mk(gr), {"op": "orient", "h": "g", "to": "t"}, {"op": "obs", "h": "t", "us": gr[0]}, {"op": "orient_deep", "h": "g", "d": r.randint(1, 3), "to": "s"},
                  {"op": "obs", "h": "s", "us": gr[0]}, {"op": "augment", "h": "t", "d": r.randint(2, 3), "f": r.randint(0, 2)}, {"op": "obs", "h": "t", "us": gr[0]},
                  {"op": "layer_new", "h": "t", "d": 2, "us": gr[0]}, {"op": "layer", "h": "t", "d": 1, "us": gr[0]}]
            g.case(ev, "small", g.labels(n))
    for _ in range(g.n(40, 500)):
        gr = rand_loopfree(g, 10, 20)
        us = gr[0][:5]
        ev = [g.mk(gr), {"op": "orient_deep", "h": "g", "d": r.randint(0, 3), "to": "s"}, {"op": "obs", "h": "s", "us": us}, {"op": "orient", "h": "g", "to": "t"},
              {"op": "augment", "h": "t", "d": r.randint(2, 4), "f": r.randint(0, 2)}, {"op": "obs", "h": "t", "us": us},
              {"op": "layer_new", "h": "t", "d": r.randint(1, 2), "us": us}, {"op": "dtf_und", "h": "t", "to": "x"},
              {"op": "orient", "h": "x", "to": "y"}, {"op": "edge_subgraph", "h": "y", "es": g.mixedge(gr[1]), "to": "z"}, {"op": "obs", "h": "z", "us": us}]
        g.case(ev, "large", g.labels(len(gr[0])))


@prop
def c24(g):
    r = g.rng

    def f(gr, tag, rs):
        vs = gr[0]
        us = vs if len(vs) <= 10 else r.sample(vs, 8)
        ev = [g.mk(gr), {"op": "orient", "h": "g", "to": "t"}]
        for d in rs:
            if r.random() < .3:
                ev.append({"op": "augment", "h": "t", "d": r.randint(1, 4), "f": r.randint(0, 2)})
            if r.random() < .1:
                ev.append({"op": "layer", "h": "t", "d": r.randint(1, 6), "us": us[:3]})
            ev += [{"op": "dtf_domset", "h": "t", "r": d}, {"op": "small_dist", "h": "t", "us": us}]
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 5):
        for gr in labelled(n):
            for _ in range(2):
                f(gr, "small", r.choice([[0, 1, 2, 3], [3, 1], [2], [1, 2], [0], [4, 0]]))
    if g.deep:
        for gr in labelled(5):
            f(gr, "five", [r.randint(0, 4), r.randint(0, 4)])
    for gr in atlas(5, g.n(6, 7)):
        f(shuffled(r, gr), "atlas", [r.randint(0, 4), r.randint(0, 4)])
    for _ in range(g.n(300, 4000)):
        f(rand_loopfree(g, 6, 18), "rand", [r.randint(0, 5) for _ in range(r.randint(1, 3))])
    for _ in range(g.n(25, 200)):   # hubs (cutoff (2r)^2), long paths
        gr = r.choice([star(r.randint(8, 30)), union(star(20), path(6)), path(24), cycle(21), grid(4, 6), tree(r, 26), tree(r, 26, 3), kpartite(2, 18)])
        f(shuffled(r, gr), "wide", [r.randint(0, 5), r.randint(1, 4)])
    for d in (32767, 32768, 40000):   # no vertices, so that the augmentations cost nothing
        f(([], []), "far", [d])
    for d in (150, 300):
        f(r.choice([([0], []), path(2), path(3)]), "far", [d if g.deep else 120])


# ------------------------------------------------------------------------------------- oracle
@prop
def c25(g):
    r = g.rng

    def f(gr, tag, sets=None, count=3, order=None):
        vs = gr[0]
        order = order or g.perm(vs)
        pos = {v: i for i, v in enumerate(order)}
        ev = [g.mk(gr), {"op": "deg_with", "h": "g", "us": order, "to": "d"}, {"op": "oracle", "h": "d", "to": "q"}]
        if sets is None:
            sets = [r.sample(vs, min(len(vs), r.randint(0, 4))) for _ in range(count)]
        for s in sets:
            s = sorted(s, key=lambda v: pos[v])
            ev += [{"op": "traces", "h": "q", "us": s, "g": "d"}, {"op": "ncount", "h": "q", "us": s, "g": "d"},
                   {"op": "shattered", "h": "q", "us": s, "kk": len(s) + r.choice([0, 0, 0, 1, 2]), "g": "d"}]
            if r.random() < .1:     # multiplicities beyond every integer type
                ev.append({"op": "shattered", "h": "q", "us": s, "kk": len(s) + r.choice([7, 8, 15, 16, 30, 31, 32, 33, 63, 64, 65, 70, 128]), "g": "d"})
        g.case(ev, tag, g.labels(len(vs)))

    for n in range(0, 5):
        for gr in labelled(n):
            f(gr, "small", [list(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)])
    for gr in atlas(5, g.n(6, 7)):
        n = len(gr[0])
        allsets = [list(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)]
        for _ in range(g.n(1, 4)):
            f(shuffled(r, gr), "atlas", allsets if g.deep else r.sample(allsets, 8))
    for _ in range(g.n(250, 4000)):
        f(rand_loopfree(g, 6, 20), "rand")
    for _ in range(g.n(60, 600)):   # graphs in which sets are shattered
        k = r.randint(1, 3)
        m = 2 ** k
        extra = r.randint(0, 3)
        n = k + m + extra
        es = [(i, k + s) for s in range(m) for i in range(k) if s >> i & 1]
        es += [(r.randrange(k), n - 1 - j) for j in range(extra) if r.random() < .5]
        if r.random() < .4 and k > 1:
            es.append((0, 1))
        if r.random() < .3 and es:
            es.remove(r.choice(es))
        p = list(range(n))
        r.shuffle(p)
        gr = (list(range(n)), [(p[a], p[b]) for a, b in es])
        f(gr, "shat", [[p[i] for i in range(k)], [p[i] for i in range(k)], r.sample(range(n), min(n, 3))])
    for _ in range(g.n(14, 120)):   # many relevant vertices: more than 64 columns
        a = r.randint(60, 75)
        b = r.randint(2, 5)
        if r.random() < .5:   # wide left neighbourhoods, hubs last
            vs, es = kpartite(a, b)
            es = [e for e in es if r.random() < .9]
            order = g.perm(range(a)) + g.perm(range(a, a + b)) if r.random() < .7 else None
        else:
            vs, es = gnp(r, a, .12)
            order = None
        sets = [r.sample(vs, r.randint(1, 4)) for _ in range(4)]
        if r.random() < .7:
            sets += [r.sample(vs[-b:], min(b, 2)), r.sample(vs[:a], 3)]
        f((vs, es), "wide", sets, order=order)


# ------------------------------------------------------------------------------------- files
def content(g, h, n):
    r = g.rng
    return {"op": h[:4] if h != "ug" else "mk"}


@prop
def c26(g):
    r = g.rng

    def rw(ev, h, k, file, cases=1):
        gz = r.random() < .5
        f = file + (r.choice(["", "", "", ".x", ".gz", ".txt", ".txt.gz", ".gz.txt", " 1", ".TXT", "\u00e9"]) + (".gz" if gz else ".txt"))
        ev.append({"op": "io_write", "h": h, "file": f, "gz": gz})
        for via in ("gz" if gz else "txt", "file"):
            ev.append({"op": "io_read", "file": f, "via": via, "k": k, "to": "back"})
            if k == "ug" and via == "file" and r.random() < .5:
                ev.append({"op": "obs", "h": "back", "us": []})
        return f, gz

    for _ in range(g.n(250, 2500)):
        n = r.randint(0, 9)
        ev = [g.mk(gnp(r, n, r.choice([.2, .5]), .2), "g"), {"op": "vset", "h": "s", "us": g.subset(range(n))}, {"op": "vseq", "h": "q", "us": [r.randrange(n) for _ in range(r.randint(0, 8))] if n else []}]
        names = []
        for h, k in (("g", "ug"), ("s", "set"), ("q", "seq")):
            names.append(rw(ev, h, k, "f" + h))
        # a later write replaces the file completely
        f, gz = names[0]
        ev += [{"op": "remove_vertex", "h": "g", "u": 0}, {"op": "io_write", "h": "g", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": "ug", "to": "b2"},
               {"op": "io_write", "h": "s", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": "set", "to": "b3"}] if n else []
        if n:
            ev += [{"op": "io_write", "h": "b2", "file": "again.txt", "gz": False}, {"op": "io_read", "file": "again.txt", "via": "file", "k": "ug", "to": "b4"}, {"op": "eq", "h": "b2", "g": "b4"}]
        g.case(ev, "small", g.labels(max(n, 1)))
    for n in range(0, 4):
        for gr in labelled(n, True):
            ev = [g.mk(gr)]
            rw(ev, "g", "ug", "f")
            g.case(ev, "all", g.labels(max(n, 1)))
    for _ in range(g.n(30, 300)):
        gr = rand_loopfree(g, 5, 25)
        ev = with_reps(g, gr)
        for h in REPS:
            rw(ev, h, "ug", "f" + h)
        g.case(ev, "reps", g.labels(len(gr[0])))
    for _ in range(g.n(20, 200)):
        n = r.randint(2, 6)
        ev = [g.mk(gnp(r, n, .5, .3, True), "g", "dg")]
        f, gz = rw(ev, "g", "ug", "f")
        g.case(ev, "dg", g.labels(n))
    # media that fail: room for some of the bytes only, short transfers, interruptions
    def fault(ev, h, k, plain, far=False):
        x = r.random()
        at, kk = (("off", r.choice([0, 0, 1, 2, 3, r.randrange(40)])) if x < .25 else ("end", r.choice([0, 1, 1, 2, 3, 7, 8, 9, r.randrange(40)])) if x < .6
                  else ("ratio", r.randrange(1001)) if x < .85 else ("beyond", r.choice([0, 1, 64])))
        via = r.choice(["txt", "gz", "gz", "buf", "buf"])
        f = "q." + ("gz" if via == "gz" else "txt")
        ev.append({"op": "io_write_fault", "h": h, "file": f, "via": via, "plain": plain, "at": at, "k": kk, "chunk": r.choice([0, 0, 1, 2, 3, 7, 64]),
                   "intr": r.choice([0, 0, 2, 3, 5]), "fail": r.choice(["err", "err", "zero", "flush"]), "buf": r.choice([0, 0, 1, 5, 16, 8192])})
        ev.append({"op": "io_read", "file": f, "via": r.choice(["file", "gz" if via == "gz" else "txt"]), "k": k, "to": "back"})

    for _ in range(g.n(200, 2500)):
        n = r.randint(0, 14)
        ev = [g.mk(gnp(r, n, r.choice([.2, .5]), .2), "g"), {"op": "vset", "h": "s", "us": g.subset(range(n))}, {"op": "vseq", "h": "q", "us": [r.randrange(n) for _ in range(r.randint(0, 12))] if n else []}]
        lab = None if r.random() < .5 else g.labels(max(n, 1))
        for h, k in (("g", "ug"), ("s", "set"), ("q", "seq")) * 2:
            fault(ev, h, k, lab is None)
        if r.random() < .1:
            ev.append({"op": "io_nowhere", "h": r.choice("gsq"), "what": r.choice(["dir", "missing"])})
        g.case(ev, "fault", lab)
    for _ in range(g.n(10, 100)):
        gr = rand_loopfree(g, 4, 16)
        ev = with_reps(g, gr)
        for h in REPS:
            fault(ev, h, "ug", True)
        g.case(ev, "faultreps")
    for _ in range(g.n(3, 20)):     # beyond one buffer
        n = r.randint(900, 2000)
        ev = [{"op": "vseq", "h": "q", "us": [r.randrange(n) for _ in range(3000)]}, {"op": "vset", "h": "s", "us": r.sample(range(5 * n), n)}]
        for h, k in (("q", "seq"), ("s", "set")) * 3:
            fault(ev, h, k, True)
        g.case(ev, "faultlarge", w=2000)
    for _ in range(g.n(4, 20)):     # larger than one buffer
        n = r.randint(300, 500)
        es = [(r.randrange(n), r.randrange(n)) for _ in range(2500)]
        es = sorted({(min(e), max(e)) for e in es})
        ev = [g.mk((list(range(n)), es))]
        rw(ev, "g", "ug", "f")
        ev.append({"op": "vseq", "h": "q", "us": [r.randrange(n) for _ in range(3000)]})
        rw(ev, "q", "seq", "q")
        g.case(ev, "large", sorted(r.sample(range(U32 + 1), n)), w=2000)


BAD_TOKENS = ["x", "-1", "4294967296", "99999999999999999999", "1.5", "0x1", "1_0", "1,2", "#", "٣", "１", "−1", "1e3", "a1", "1a", "--1", "nan", "\x00", "1\x00", "1,", "2;", ",1", ";", "1.", ".1", "(1", "1)", "\"1\"", "'2", "1:", "v1", "1|", "1/2", "1-", "1+"]
GOOD_TOKENS = ["0", "1", "2", "3", "7", "00", "01", "007", "4294967295", "04294967295", "000000000000000000000005", "4294967294", "1000000000", "2147483648"]
SPACES = [" ", "  ", "\t", " \t ", "\u00a0", "\u2003", "\x0b", "\x0c"]


def text_line(g, k, good):
    r = g.rng
    tok = lambda: r.choice(GOOD_TOKENS) if r.random() < .8 else str(r.randrange(12))
    if k == "ug":
        ts = [tok(), tok()]
    else:
        ts = [tok()]
    if not good:
        x = r.random()
        if x < .35:
            ts[r.randrange(len(ts))] = r.choice(BAD_TOKENS)
        elif x < .6:
            ts.append(tok() if r.random() < .6 else r.choice(BAD_TOKENS))
        elif x < .8:
            ts.pop()
        else:
            ts = []
    sep = r.choice(SPACES) if r.random() < .3 else " "
    s = sep.join(ts)
    if r.random() < .15:
        s = r.choice(SPACES) + s
    if r.random() < .2:
        s = s + r.choice(SPACES)
    return s


@prop
def c27(g):
    r = g.rng
    ev = []

    def parse(data, k, via, wrap="plain", dmg="none", at=0, ext=None, miss=False, stem="f"):
        ext = ext if ext is not None else ("gz" if wrap == "gz" else "txt")
        ev.append({"op": "io_parse", "bytes": list(data), "wrap": wrap, "dmg": dmg, "at": at, "via": via, "file": stem + "." + ext if ext else stem, "ext": ext, "miss": miss, "k": k})

    def flush(tag, size=40):
        for i in range(0, len(ev), size):
            g.case(ev[i:i + size], tag)
        ev.clear()

    def anyway(data, k):
        gz = r.random() < .35
        if gz:
            parse(data, k, r.choice(["gz", "file"]), "gz")
        else:
            parse(data, k, r.choice(["txt", "file", "buf", "txt"]))

    kinds = ("ug", "ug", "set", "seq")
    # valid and nearly valid files
    for _ in range(g.n(2200, 25000)):
        k = r.choice(kinds)
        lines = [text_line(g, k, True) for _ in range(r.randint(0, 5))]
        if r.random() < .6:
            lines.insert(r.randint(0, len(lines)), text_line(g, k, False))
        data = b""
        for i, s in enumerate(lines):
            data += s.encode("utf-8", "replace")
            if i < len(lines) - 1 or r.random() < .7:
                data += r.choice([b"\n", b"\n", b"\n", b"\r\n", b"\n\n" if r.random() < .1 else b"\n"])
        anyway(data, k)
    flush("lines")
    # every token alone, in every position
    for t in BAD_TOKENS + GOOD_TOKENS + ["", " "]:
        for k in ("ug", "set", "seq"):
            for fmt in (("{} 1", "1 {}", "{0} {0}", "{}", "1 2 {}", "1 2\n{} 4", "1 2\n\n") if k == "ug" else ("{}", " {} ", "1\n{}", "{}\n2", "{} {}", "1 {}")):
                s = fmt.format(t, t)
                for via in ("txt", "buf"):
                    parse(s.encode(), k, via)
    flush("tokens")
    # short files over a critical alphabet
    alpha = [b"1", b"2", b" ", b"\n", b"\r", b"\t", b"-", b"\xc3", b"\xa0", b"\xe2", b"\x80", b"\xff", b"x"]
    for _ in range(g.n(1500, 20000)):
        data = b"".join(r.choice(alpha[:5] if r.random() < .75 else alpha) for _ in range(r.randint(0, 9)))
        anyway(data, r.choice(kinds))
    flush("bytes")
    if g.deep:
        for n in range(0, 6):
            for t in itertools.product([b"1", b" ", b"\n", b"x"], repeat=n):
                for k in ("ug", "set"):
                    parse(b"".join(t), k, "txt" if n % 2 else "buf")
        flush("short")
    # boundary of the id range
    for v in [U32 - 1, U32, U32 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 10 ** 9, 10 ** 10 - 1, 10 ** 10, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 32 * 10 + 1]:
        for k in ("ug", "set", "seq"):
            s = f"{v} 1\n1 2\n" if k == "ug" else f"{v}\n1\n"
            for via in ("txt", "buf", "file"):
                parse(s.encode(), k, via)
            parse(s.encode(), k, "gz", "gz")
    # damaged compression
    for _ in range(g.n(700, 8000)):
        k = r.choice(kinds)
        lines = [text_line(g, k, True) for _ in range(r.randint(0, 30))]
        data = "\n".join(lines).encode()
        if data and r.random() < .8:
            data += b"\n"
        parse(data, k, r.choice(["gz", "file"]), "gz", r.choice(["trunc", "trunc", "flip"]), r.randrange(10 ** 6))
    # every truncation point of one small file
    for k, data in (("ug", b"1 2\n2 3\n3 4\n"), ("set", b"1\n2\n3\n"), ("seq", b"5\n5\n")):
        for at in range(0, 60):
            parse(data, k, "gz", "gz", "trunc", at)
            parse(data, k, "file", "gz", "trunc", at)
    # truncated in the middle of a long stream (partial results must not surface)
    for _ in range(g.n(12, 100)):
        k = r.choice(kinds)
        data = "".join(f"{r.randrange(10 ** 6)} {r.randrange(10 ** 6)}\n" if k == "ug" else f"{r.randrange(10 ** 6)}\n" for _ in range(120)).encode()
        parse(data, k, "gz", "gz", "trunc", r.randrange(10 ** 6))
        parse(data, k, "gz", "gz", "flip", r.randrange(10 ** 6))
    # several compressed members in one file; other data after the compressed data
    for _ in range(g.n(120, 1500)):
        k = r.choice(kinds)
        lines = [text_line(g, k, r.random() < .97) for _ in range(r.randint(0, 12))]
        data = "\n".join(lines).encode() + (b"\n" if lines and r.random() < .8 else b"")
        parse(data, k, r.choice(["gz", "file"]), "gzs", ext="gz")
        ev[-1]["parts"] = r.randint(1, 4)
        if r.random() < .2:
            parse(data, k, r.choice(["gz", "file"]), "gz", "tail", r.randrange(30))
    # media that fail while reading: the failure is reported wherever it happens; short reads and interruptions are not failures
    for _ in range(g.n(500, 6000)):
        k = r.choice(kinds)
        lines = [text_line(g, k, r.random() < .97) for _ in range(r.randint(0, 8))]
        data = "\n".join(lines).encode() + (b"\n" if lines and r.random() < .8 else b"")
        parse(data, k, "buf")
        f = {"chunk": r.choice([0, 1, 1, 2, 3, 7]), "intr": r.choice([0, 2, 3, 5]), "buf": r.choice([1, 2, 3, 5, 64, 8192])}
        if r.random() < .6:
            f["at"] = r.choice([0, len(data), max(0, len(data) - 1), r.randint(0, len(data)), r.randint(0, len(data))])
        ev[-1]["fault"] = f
    flush("media")
    # not compressed at all, missing files, unsupported extensions
    for k in ("ug", "set", "seq"):
        for data in (b"1 2\n" if k == "ug" else b"1\n", b"", b"\x1f\x8b", b"\x1f\x8b\x08\x00"):
            parse(data, k, "gz", "plain", ext="gz")
            parse(data, k, "file", "plain", ext="gz")
        good = b"1 2\n" if k == "ug" else b"1\n"
        for via, ext in (("txt", "txt"), ("gz", "gz"), ("file", "txt"), ("file", "gz"), ("file", "csv"), ("file", "")):
            parse(good, k, via, ext=ext, miss=True)
        for ext in ("csv", "", "dat", "TXT", "gzip", "txt~", "zip"):
            parse(good, k, "file", ext=ext)
        for stem in (".txt", ".gz", "f txt", "txt", "gz"):      # no extension
            parse(good, k, "file", ext="", stem=stem)
        for stem, ext in (("f.txt", "csv"), ("f.gz", "csv"), ("f.txt", "gz"), ("f.gz", "txt"), (".gz", "txt"), ("f.txt", "txt~"), ("f.csv", "txt"), ("f.csv", "gz")):
            parse(good, k, "file", "gz" if ext == "gz" else "plain", ext=ext, stem=stem)
        parse(good, k, "txt", ext="csv")
        parse(good, k, "gz", "gz", ext="csv")
    for what in ("dir", "missing"):
        ev += [{"op": "vset", "h": "s", "us": [1]}, {"op": "io_nowhere", "h": "s", "what": what}]
    flush("damage")


# ------------------------------------------------------------------------------------- colourings
@prop
def c28(g):
    r = g.rng

    def pairs(n, m):
        return [[r.randrange(n), r.randrange(4) if r.random() < .8 else r.randrange(1000)] for _ in range(m)]

    def build(h, n):
        x = r.random()
        if x < .3:
            return {"op": "col_new", "h": h, "ps": pairs(n, r.randint(0, 6))}
        if x < .4:
            return {"op": "col_default", "h": h}
        if x < .6:
            return {"op": "col_map", "h": h, "ps": pairs(n, r.randint(0, 6))}
        return {"op": "col_sets", "h": h, "sets": [sorted(set(r.randrange(n) for _ in range(r.randint(0, 3)))) for _ in range(r.randint(0, 4))]}

    for _ in range(g.n(900, 9000)):
        n = r.randint(1, 6)
        us = list(range(n))
        ev = [build("a", n), build("b", n), {"op": "col_obs", "h": "a", "us": us}, {"op": "col_obs", "h": "b", "us": us}]
        for _ in range(r.randint(1, 7)):
            x = r.random()
            h = r.choice("ab")
            if x < .35:
                ev.append({"op": "col_insert", "h": h, "u": r.randrange(n), "c": r.randrange(5)})
            elif x < .65:
                ev.append({"op": "col_extend", "h": h, "g": "b" if h == "a" else "a"})
            elif x < .8:
                ev += [{"op": "col_subset", "h": h, "us": [r.randrange(n) for _ in range(r.randint(0, 4))], "to": "s"}, {"op": "col_obs", "h": "s", "us": us}, {"op": "col_extend", "h": "s", "g": h}]
            else:
                ev.append({"op": "col_eq", "h": "a", "g": "b"})
            ev.append({"op": "col_obs", "h": h, "us": us})
        g.case(ev, "hist", g.labels(n))
    els = [[v] for v in range(4)] + [[u, v] for u in range(4) for v in range(4)]
    g.case([{"op": "mixed", "a": a, "b": b} for a in els for b in els], "mixed", g.labels(4))
    g.case([{"op": "mixed", "a": a, "b": b} for a in els for b in els], "mixed")
    # majority with clear winners
    for _ in range(g.n(100, 1000)):
        n = r.randint(1, 20)
        g.case([{"op": "col_map", "h": "a", "ps": [[v, r.choice([0, 1, 1, 2, 2, 2, 900])] for v in range(n)]}, {"op": "col_obs", "h": "a", "us": list(range(0, n, 2))}], "maj", g.labels(n))


# ------------------------------------------------------------------------------------- all representations
@prop
def c29(g):
    r = g.rng
    for _ in range(g.n(260, 3500)):
        gr = rand_loopfree(g, 0, 11) if r.random() < .8 else gnp(r, r.randint(0, 5), .6)
        vs = gr[0]
        n = len(vs)
        us = list(range(n + 1))
        ev = [g.mk(gr, "g0")]
        have = {"g0": "ug"}

        def fresh(p):
            return f"{p}{len(have)}"

        for _ in range(r.randint(4, 9)):
            h, k = r.choice(sorted(have.items()))
            x = r.random()
            if k == "reach":
                h, k = "g0", "ug"
            if k in ("ug", "ord", "deg") and x < .25:
                t = fresh("o")
                ev.append(r.choice([{"op": "ord_with", "h": h, "us": g.perm(vs), "to": t}, {"op": "ord_deg", "h": h, "to": t}]))
                have[t] = "ord"
            elif k in ("ug", "ord", "deg") and x < .45:
                t = fresh("d")
                ev.append(r.choice([{"op": "deg_with", "h": h, "us": g.perm(vs), "to": t}, {"op": "deg_from", "h": h, "to": t}]))
                have[t] = "deg"
            elif k == "ord" and x < .8:
                t = fresh("x")
                if n and r.random() < .5:
                    ev.append({"op": "swap", "h": h, "u": r.choice(vs), "v": r.choice(vs)})
                if r.random() < .5:
                    ev.append({"op": "to_deg", "h": h, "to": t})
                    have[t] = "deg"
                else:
                    ev.append({"op": "to_reach", "h": h, "r": r.randint(1, 4), "weak": r.random() < .5, "to": t})
                    have[t] = "reach"
            else:
                t = fresh("g")
                ev.append({"op": "subgraph", "h": h, "us": g.perm(vs), "to": t})
                have[t] = "ug"
                if r.random() < .4:
                    ev.append({"op": "from_edges", "h": h, "to": "fe"})
        kk = r.randint(1, 3)
        for h, k in have.items():
            ev.append({"op": "obs", "h": h, "us": us})
            if k in ("ord", "deg", "reach"):
                ev += [{"op": "cliques", "h": h}, {"op": "colour", "h": h}]
            if k in ("ord", "deg"):
                ev += [{"op": "wreach_sets", "h": h, "r": kk}, {"op": "sreach_sets", "h": h, "r": kk}]
            if k == "ug" and h != "g0":
                ev.append({"op": "eq", "h": "g0", "g": h})
        g.case(ev, "chain", g.labels(n + 1))
    # one order in all four representations
    for n in range(0, 5):
        for gr in labelled(n):
            vs = gr[0]
            ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}]
            if n > 1:
                ev.append({"op": "swap", "h": "o", "u": r.choice(vs), "v": r.choice(vs)})
            ev += [{"op": "to_deg", "h": "o", "to": "d"}, {"op": "to_reach", "h": "o", "r": r.randint(1, 3), "weak": r.random() < .5, "to": "r"}]
            for h in ("g", "o", "d", "r"):
                ev.append({"op": "obs", "h": h, "us": list(range(n + 1))})
            for h in ("o", "d", "r"):
                ev += [{"op": "cliques", "h": h}, {"op": "colour", "h": h}]
            for h in ("o", "d"):
                ev += [{"op": "wreach_sets", "h": h, "r": 2}, {"op": "sreach_sets", "h": h, "r": 2}, {"op": "subgraph", "h": h, "us": g.perm(vs), "to": "b"}, {"op": "eq", "h": "b", "g": "g"}]
            g.case(ev, "small", g.labels(n + 1))


def generate(prop_id, tier, seed):
    g = Gen(prop_id, tier, seed)
    PROPS[prop_id](g)
    genbig.BIG[prop_id](g)
    if prop_id in genhuge.HUGE:
        genhuge.HUGE[prop_id](g)
    return g.cases
