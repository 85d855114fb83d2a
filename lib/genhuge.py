"""Third part of the script generators: a few graphs with more than 256 vertices, degrees, distances, components or colours,
where a count or a distance kept in one byte wraps around."""
from graphs import *

HUGE = {}


def huge(*names):
    def reg(f):
        for x in names:
            HUGE[x] = f
        return f
    return reg


def stars(r):
    """A hub with more than 256 neighbours, and something small beside it."""
    return union(star(r.randint(258, 300)), cycle(5))


def lines(r):
    return r.choice([path, cycle])(r.randint(262, 300))


def kilo(r):
    """More than 1024 vertices."""
    n = r.randint(1026, 1050)
    return r.choice([lambda: union(star(n), path(3)), lambda: tree(r, n), lambda: path(n), lambda: union(cycle(n), star(4))])()


def some(g):
    r = g.rng
    fs = (stars, lines, kilo) if not g.deep else (stars, lines) * 5 + (kilo,) * 3
    if g.deep and g.prop in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C15"):
        fs += (lambda r: star(4100),)     # the queries of the others take too long to judge
    return [shuffled(r, f(r)) for f in fs]


def hub(gr):
    d = {}
    for e in gr[1]:
        for v in e:
            d[v] = d.get(v, 0) + 1
    return max(d, key=d.get)


@huge("C01", "C05")
def edit(g):
    r = g.rng
    k = "ug" if g.prop == "C01" else "dg"
    for gr in some(g):
        vs, es = gr
        c = hub(gr)
        us = [c] + r.sample(vs, 3)
        if k == "dg":
            way = r.choice([0, 1, 2])     # out of the hub, into it, mixed
            es = [(a, b) if way == 2 and r.random() < .5 else (a, b) if (a == c) == (way == 0) else (b, a) for a, b in es]
        ev = [g.mk((vs, es), "g", k), {"op": "obs", "h": "g", "us": us}]
        for e in r.sample(es, 3):
            ev.append({"op": "remove_edge", "h": "g", "u": e[0], "v": e[1]})
        ev += [{"op": "obs", "h": "g", "us": us}, {"op": "add_edges", "h": "g", "es": g.mixedge(es) if k == "ug" else g.shuf(es)}, {"op": "add_edge", "h": "g", "u": c, "v": c}, {"op": "obs", "h": "g", "us": us},
               {"op": "remove_loops", "h": "g"}, {"op": "remove_vertex", "h": "g", "u": c}, {"op": "remove_isolates", "h": "g"}, {"op": "add_vertex", "h": "g", "u": c}, {"op": "obs", "h": "g", "us": [c]}]
        g.case(ev, "huge", g.labels(len(vs)), w=60)


@huge("C02")
def contract(g):
    r = g.rng
    for gr in some(g):
        vs, es = gr
        c = hub(gr)
        o = [v for v in vs if v != c]
        x = r.randrange(3)
        if x == 0:
            ev = [{"op": "contract", "h": "g", "us": g.perm(vs)[:r.randint(200, 262)]}]
        elif x == 1:
            ev = [{"op": "contract_into", "h": "g", "u": r.choice(o), "us": [c] + r.sample(o, 2)}]
        else:
            a, b = r.sample(o, 2)
            ev = [{"op": "contract_pair", "h": "g", "u": a, "v": c}, {"op": "contract_pair", "h": "g", "u": b if b != a else c, "v": a}]
        g.case([g.mk(gr)] + ev + [{"op": "obs", "h": "g", "us": [vs[0]]}], "huge", g.labels(len(vs)), w=60)


@huge("C03", "C06")
def copies(g):
    r = g.rng
    k = "ug" if g.prop == "C03" else "dg"
    for gr in some(g):
        vs, es = gr
        e = r.choice(es)
        ev = [g.mk(gr, "a", k), {"op": "clone", "h": "a", "to": "b"}, {"op": "eq", "h": "a", "g": "b"}, {"op": "remove_edge", "h": "b", "u": e[0], "v": e[1]}, {"op": "eq", "h": "a", "g": "b"},
              {"op": "add_edge", "h": "b", "u": e[0], "v": e[1]}, {"op": "eq", "h": "b", "g": "a"}, {"op": "normalize", "h": "b"}]
        g.case(ev, "huge", g.labels(len(vs)), w=60)
    a, b = path(270), star(3)
    g.case([g.mk(a, "a", k), g.mk(b, "b", k), {"op": "disj_union", "h": "b", "g": "a", "to": "x"}, {"op": "disj_unions", "k": k, "gs": ["b"] * 70 + ["a"], "to": "y"}], "hunion", w=60)


@huge("C04")
def generate(g):
    for name, p in (("path", [300]), ("cycle", [257]), ("matching", [150]), ("star", [300]), ("grid", [2, 140]), ("biclique", [260, 1]), ("biclique", [1, 260]), ("independent", [260])):
        g.case([{"op": "gen", "h": "g", "k": "ug", "name": name, "p": p}, {"op": "gen", "h": "d", "k": "dg", "name": name, "p": p}], "huge" + name, w=40)
    for name, p in (("path", [1030]), ("cycle", [1025]), ("matching", [520]), ("star", [1030]), ("grid", [33, 32]), ("biclique", [3, 400]), ("clique", [70]), ("independent", [1030]), ("grid", [1030, 1])):
        g.case([{"op": "gen", "h": r, "k": r + "g", "name": name, "p": p} for r in "ud"], "kilo" + name, w=60)
    g.case([{"op": "gen", "h": "g", "k": "ug", "name": "kpartite", "p": [1, 258, 0, 1]}], "hugek", w=40)
    g.case([{"op": "gen", "h": "g", "k": "ug", "name": "kpartite", "p": [1] * 70}, {"op": "gen", "h": "h", "k": "ug", "name": "kpartite", "p": [0] * 70 + [2, 1]}], "hugep", w=40)


@huge("C07")
def balls(g):
    r = g.rng
    for gr in some(g):
        vs = gr[0]
        c = hub(gr)
        ev = [g.mk(gr), {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}]
        for h in "gd":
            ev += [{"op": "rnb", "h": h, "u": vs[0], "r": k} for k in (r.randint(257, 299), r.randint(1, 3))]
            ev += [{"op": o, "h": h, "us": r.sample(vs, len(vs) - 3)} for o in ("nbhd", "cnbhd")]
            ev += [{"op": "rnbhd", "h": h, "us": [vs[0], c], "r": 129}, {"op": "cnbhd", "h": h, "us": [c]}, {"op": "subgraph", "h": h, "us": vs[2:], "to": "s"}]
        g.case(ev, "huge", g.labels(len(vs)), w=80)
    n = r.randint(262, 290)
    g.case([g.mk((list(range(n)), [(i, i + 1) if r.random() < .5 else (i + 1, i) for i in range(n - 1)]), "g", "dg"), {"op": "rnb", "h": "g", "u": 0, "r": 300},
            {"op": "rnbhd", "h": "g", "us": [n // 2, 0], "r": 70}], "hdi", g.labels(n), w=30)


@huge("C08")
def iterate(g):
    r = g.rng
    for gr in some(g):
        vs = gr[0]
        ev = [g.mk(gr), {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}] + [{"op": "iterparts", "h": h} for h in "gd"]
        ev += [{"op": "itermodes", "h": h, "it": x, "k": r.choice([3, 257, 300])} for h in "god" for x in ("edges", "mixed", "nbs")]
        g.case(ev, "huge", g.labels(len(vs)), w=80)
        g.case([g.mk(gr, "g", "dg"), {"op": "obs", "h": "g", "us": [hub(gr)]}], "hdi", g.labels(len(vs)), w=40)


@huge("C09")
def ops(g):
    r = g.rng
    for gr in some(g):
        vs, es = gr
        ev = [g.mk(gr, "a"), g.mk((vs[3:], [e for e in es if not set(e) & set(vs[:3])]), "b"), {"op": "merge", "h": "a", "g": "b", "to": "m"}, {"op": "intersect", "h": "b", "g": "a", "to": "i"}]
        g.case(ev, "huge", g.labels(len(vs)), w=60)
    ev = [g.mk(path(4), "p"), {"op": "subdivide", "h": "p", "t": 130, "to": "s"}, g.mk(path(3), "p"), {"op": "subdivide", "h": "p", "t": r.choice([256, 257, 300]), "to": "s"}, g.mk(path(90), "x"), g.mk(path(3), "y"), {"op": "cart", "h": "x", "g": "y", "to": "c"}, {"op": "cart", "h": "y", "g": "x", "to": "c"},
          {"op": "lexi", "h": "x", "g": "y", "to": "l"}]
    g.case(ev, "hprod", w=80)


@huge("C10")
def compare(g):
    r = g.rng
    for gr in some(g):
        vs, es = gr
        for k in ("ug", "dg"):
            x = r.choice(es)
            bs = [(vs, es), (vs, [e for e in es if e != x]), ([v for v in vs if v not in x], [e for e in es if not set(e) & set(x)]), (vs + [len(vs)], es), (vs + [len(vs)], [e for e in es if e != x])]
            ev = [g.mk(gr, "a", k)]
            for b in bs:
                ev += [g.mk(b, "b", k), {"op": "compare", "h": "a", "g": "b"}, {"op": "compare", "h": "b", "g": "a"}]
            g.case(ev, "huge", g.labels(len(vs) + 1), w=60)


@huge("C11", "C12")
def comps(g):
    r = g.rng
    op = "components" if g.prop == "C11" else "bipartite"
    gs = some(g) + [shuffled(r, x) for x in (cycle(r.choice([259, 301])), cycle(260), union(*([path(1)] * 150 + [path(2)] * 110 + [cycle(3)] * r.randint(0, 1))), union(tree(r, 280, 4), cycle(4)))]
    for gr in gs:
        k = r.choice(["ug", "ug", "dg"])
        g.case([g.mk(gr, "g", k), {"op": op, "h": "g"}], "huge", g.labels(len(gr[0])), w=50)


@huge("C13")
def degen(g):
    r = g.rng
    for gr in some(g) + [shuffled(r, kpartite(3, 260)), shuffled(r, union(*([clique(3)] * 90)))]:
        g.case([g.mk(gr), {"op": "degeneracy", "h": "g"}], "huge", g.labels(len(gr[0])), w=50)


@huge("C14", "C15")
def ordered(g):
    r = g.rng
    for gr in some(g):
        vs = gr[0]
        c = hub(gr)
        order = g.perm([v for v in vs if v != c])
        order.insert(r.choice([0, 3, len(order) // 2, len(order)]), c)
        us = [c] + r.sample(vs, 2)
        if g.prop == "C14":
            ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": order, "to": "o"}]
            for _ in range(4):
                ev.append({"op": "swap", "h": "o", "u": r.choice([c, r.choice(vs)]), "v": r.choice(vs)})
            ev += [{"op": "obs", "h": "o", "us": us}, {"op": "leftmost", "h": "o", "us": r.sample(vs, 260)}, {"op": "rightmost", "h": "o", "us": r.sample(vs, 260)}]
            g.case(ev, "huge", g.labels(len(vs)), w=60)
        else:
            ev = [g.mk(gr), {"op": "deg_with", "h": "g", "us": order, "to": "d"}, {"op": "obs", "h": "d", "us": us}, {"op": "normalize", "h": "d"}, {"op": "obs", "h": "d", "us": us}]
            g.case(ev, "huge", w=60)


@huge("C16", "C17")
def reach(g):
    r = g.rng
    n = r.randint(262, 275)
    for gr in [star(n), union(path(n), star(3)) if g.prop == "C16" else star(n + 1)]:
        vs = gr[0]
        c = hub(gr)
        order = list(vs)
        if gr[1] and len({e[0] for e in gr[1]} & {e[1] for e in gr[1]}) == 0:   # a star: the hub early, in the middle or last
            order = g.perm([v for v in vs if v != c])
            order.insert(len(order) if g.prop == "C17" and len(vs) == n + 2 else r.choice([0, len(order) // 2, len(order)]), c)
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": order, "to": "o"}]
        if g.prop == "C16":
            far = len({e[0] for e in gr[1]}) > 3
            for k in ([r.randint(257, 280)] if far else [1, 2]):
                ev += [{"op": o, "h": "o", "r": k} for o in (("sreach_sizes", "wreach_sizes") if far else ("wreach_sets", "sreach_sets", "sreach_sizes", "wreach_sizes"))]
                ev += [{"op": "right_bfs", "h": "o", "u": order[0], "r": k}, {"op": "sreach_set", "h": "o", "u": order[-1], "r": k}]
        else:
            ev += [{"op": "to_reach", "h": "o", "r": 1, "weak": True, "to": "r"}, {"op": "obs", "h": "r", "us": sorted({order[-1], c})}]
            if order[0] == c:
                ev += [{"op": "to_reach", "h": "o", "r": 2, "weak": False, "to": "r"}, {"op": "obs", "h": "r", "us": sorted({order[-1], c})}]
        g.case(ev, "huge", g.labels(len(vs)), w=120)
    if g.prop == "C16":     # everything weakly reaches the first vertex, at every distance up to the length of the path
        gr = path(n)
        for h, op in (("o", "ord_with"), ("d", "deg_with")):
            k = r.randint(257, n + 5)
            g.case([g.mk(gr), {"op": op, "h": "g", "us": [0] + g.perm(range(1, n)), "to": h}, {"op": "wreach_sets", "h": h, "r": k}, {"op": "wreach_sizes", "h": h, "r": k}], "hfar", g.labels(n), w=60)
        # the strong version: a path whose ends come first
        g.case([g.mk(gr), {"op": "ord_with", "h": "g", "us": [0, n - 1] + g.perm(range(1, n - 1)), "to": "o"}, {"op": "sreach_set", "h": "o", "u": n - 1, "r": n + 3}, {"op": "sreach_sets", "h": "o", "r": n}], "hfar", g.labels(n), w=60)


@huge("C18", "C19")
def cliques(g):
    r = g.rng
    op = "cliques" if g.prop == "C18" else "colour"
    for gr in some(g) + [shuffled(r, union(*([clique(3)] * 88 + [clique(1)] * 3)))]:
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(gr[0]), "to": "o"}, {"op": op, "h": "o"}, {"op": "deg_from", "h": "g", "to": "d"}, {"op": op, "h": "d"}]
        g.case(ev, "huge", g.labels(len(gr[0])), w=60)
    for k in ((r.choice([66, 68, 72]),) if not g.deep else (65, 67, 70, 100, 130, 135, 258)):   # large cliques: more colours than bits
        pend = k // 3
        es = [(i, k + r.randrange(pend)) for i in range(k)] + [(k - 1 - i, k + i) for i in range(pend)]
        drop = [(2 * i, 2 * i + 1) for i in range(3)] if op == "cliques" else []
        es = sorted({e for e in clique(k)[1] + es if e not in drop and (e[1], e[0]) not in drop})
        vs = list(range(k + pend))
        ev = [g.mk((vs, es)), {"op": "ord_with", "h": "g", "us": vs if op == "colour" else g.perm(vs), "to": "o"}, {"op": op, "h": "o"}, {"op": "to_deg", "h": "o", "to": "d"}, {"op": op, "h": "d"}]
        g.case(ev, "hclique", g.labels(len(vs)), w=60 + k)
    if op == "cliques":     # as many maximal cliques as there can be
        for gr in (kpartite(*[3] * 5), kpartite(*[2] * (12 if g.deep else 9)), kpartite(3, 3, 3, 2, 2, 2, 2)):
            gr = shuffled(r, union(gr, path(2)))
            g.case([g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(gr[0]), "to": "o"}, {"op": op, "h": "o"}], "hmany", g.labels(len(gr[0])), w=60)


@huge("C20")
def dom(g):
    r = g.rng
    for gr, k in ((path(270), r.choice([60, 130, 257])), (star(280), 1), (star(280), 0), (union(star(260), path(20)), 3), (kilo(r), r.choice([1, 2, 3]))):
        gr = shuffled(r, gr) if k < 50 else gr
        vs = gr[0]
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs) if k < 50 else vs, "to": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}]
        ev += [{"op": "domset", "h": h, "r": k, "wit": w} for h, w in (("o", r.random() < .5), ("d", r.random() < .5))]
        ev += [{"op": "domset", "h": "d", "r": k, "wit": True, "us": r.sample(vs, 30)}]
        g.case(ev, "huge", g.labels(len(vs)), w=100)


@huge("C21")
def scat(g):
    r = g.rng
    for gr, d in ((path(270), r.choice([60, 257])), (star(270), 2), (star(270), 3), (union(star(1030), path(3)), 2)):
        vs = gr[0]
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": vs, "to": "o"}, {"op": "deg_from", "h": "g", "to": "d"}]
        ev += [{"op": "scattered", "h": h, "d": d, "us": g.perm(vs) if d < 4 and h == "d" else r.sample(vs, 40)} for h in "od"]
        g.case(ev, "huge", g.labels(len(vs)), w=100)


@huge("C22", "C23", "C24")
def dtf(g):
    r = g.rng
    for gr in (union(star(258), path(3)), shuffled(r, union(star(1030 if g.deep else 515), path(3)))):
        vs, es = gr
        ev = [g.mk(gr), {"op": "orient", "h": "g", "to": "t"}]
        if g.prop == "C22":
            ev += [{"op": "augment", "h": "t", "d": 2, "f": 0}, {"op": "small_dist", "h": "t", "us": r.sample(vs, 20)}]
        elif g.prop == "C23":
            ev += [{"op": "obs", "h": "t", "us": vs[:3]}, {"op": "layer", "h": "t", "d": 1, "us": vs[:3]}]
            if len(vs) < 400:
                hs = r.sample(vs, 3)
                # more than 256 arcs of one weight into or out of one vertex
                w = r.randint(2, 3)
                ev += [{"op": "dtf_arc", "h": "t", "u": hs[0], "v": v, "w": w} for v in vs if v not in hs][:r.randint(256, 257)] if r.random() < .5 else [{"op": "dtf_arc", "h": "t", "u": v, "v": hs[0], "w": w} for v in vs if v not in hs][:r.randint(256, 257)]
                ev += [{"op": "dtf_arc", "h": "t", "u": hs[1], "v": hs[2], "w": 5 - w}, {"op": "obs", "h": "t", "us": hs}, {"op": "layer", "h": "t", "d": w, "us": hs}]
        else:
            ev += [{"op": "dtf_domset", "h": "t", "r": 1}]
        g.case(ev, "huge", g.labels(len(vs)), w=200)
    if g.prop == "C22":     # long distances
        for n, d in ((40, 36), (4, 300)) if not g.deep else ((40, 39), (70, 66), (6, 300), (130, 128)):
            gr = r.choice([path, cycle])(n) if n > 6 else path(n)
            ev = [g.mk(gr), {"op": "orient", "h": "g", "to": "t"}, {"op": "augment", "h": "t", "d": d, "f": r.randint(0, 2)}, {"op": "small_dist", "h": "t", "us": gr[0][:3] + gr[0][-3:] if n > 6 else gr[0]}]
            g.case(ev, "hdeep", g.labels(n), w=100)


@huge("C25")
def oracle(g):
    r = g.rng
    n = 300
    hubs = [n, n + 1, n + 2]
    es = [(v, h) for v in range(n) for i, h in enumerate(hubs) if (v >= 270) <= (i == v % 3)]   # 270 vertices with all hubs
    order = hubs + g.perm(range(n))
    ev = [g.mk((list(range(n + 3)), es)), {"op": "deg_with", "h": "g", "us": order, "to": "d"}, {"op": "oracle", "h": "d", "to": "q"}]
    for s in (hubs, hubs[:2], hubs[2:], [hubs[0], order[100]]):
        ev += [{"op": "traces", "h": "q", "us": s, "g": "d"}, {"op": "ncount", "h": "q", "us": s, "g": "d"}]
    g.case(ev, "huge", g.labels(n + 3), w=120)
    # queries of more than 64 vertices, seen as a whole from the right, from the left, and in part
    m = r.randint(66, 80) if not g.deep else r.randint(66, 260)
    for order in (list(range(m + 3)), [m] + list(range(m)) + [m + 1, m + 2]):
        es = [(v, m) for v in range(m)] + [(v, m + 1) for v in range(m) if v != 65] + [(v, m + 2) for v in range(64)]
        ev = [g.mk((list(range(m + 3)), es)), {"op": "deg_with", "h": "g", "us": order, "to": "d"}, {"op": "oracle", "h": "d", "to": "q"}]
        for s in (list(range(m)), list(range(1, 66)), [v for v in order if r.random() < .5]):
            ev += [{"op": "traces", "h": "q", "us": s, "g": "d"}, {"op": "ncount", "h": "q", "us": s, "g": "d"}]
        g.case(ev, "hquery", g.labels(m + 3), w=60)


@huge("C26")
def files(g):
    r = g.rng
    for gr in some(g):
        ev = [g.mk(gr)]
        for gz in (True, False):
            f = "f.gz" if gz else "f.txt"
            ev += [{"op": "io_write", "h": "g", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": "ug", "to": "b"}]
        g.case(ev, "huge", g.labels(len(gr[0])), w=60)
    # more than a buffer's worth of text; more than 2^16 bytes and, in a set, 2^16 elements
    for n, kind in ((2600, "seq"), (70000, "seq"), (66000, "set")):
        us = [r.randrange(10 ** 8) for _ in range(n)] if kind == "seq" else r.sample(range(10 ** 8), n)
        ev = [{"op": "v" + kind, "h": "q", "us": us}]
        for gz in (True, False):
            f = "q.gz" if gz else "q.txt"
            ev += [{"op": "io_write", "h": "q", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": kind, "to": "b"}]
        g.case(ev, "h" + kind, w=60)


@huge("C28")
def colours(g):
    r = g.rng
    n = 300
    us = r.sample(range(n), 4)
    ev = [{"op": "col_sets", "h": "a", "sets": [[v] for v in g.perm(range(n))[:280]]}, {"op": "col_obs", "h": "a", "us": us},
          {"op": "col_new", "h": "b", "ps": [[v, r.randrange(300)] for v in range(n)]}, {"op": "col_obs", "h": "b", "us": us}, {"op": "col_extend", "h": "a", "g": "b"}, {"op": "col_obs", "h": "a", "us": us},
          {"op": "col_subset", "h": "a", "us": r.sample(range(n), 280), "to": "c"}, {"op": "col_obs", "h": "c", "us": us}]
    g.case(ev, "huge", g.labels(n), w=60)
    for a, b in ((257, 43), (256, 3), (1, 299), (270, 30), (r.randint(255, 265), r.randint(100, 300))):    # groups of more than 255 vertices
        ps = [[v, c] for v, c in enumerate(g.shuf([1] * a + [2] * b))]
        g.case([{"op": "col_new", "h": "a", "ps": ps}, {"op": "col_obs", "h": "a", "us": r.sample(range(a + b), 4)}], "hgroup", g.labels(a + b), w=40)


@huge("C29")
def agree(g):
    r = g.rng
    gr = shuffled(r, stars(r))
    vs = gr[0]
    us = [hub(gr), vs[0]]
    ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "swap", "h": "o", "u": hub(gr), "v": vs[1]}, {"op": "to_deg", "h": "o", "to": "d"}, {"op": "to_reach", "h": "o", "r": 1, "weak": True, "to": "r"}]
    ev += [{"op": "obs", "h": h, "us": us} for h in "odr"] + [{"op": "colour", "h": h} for h in "odr"] + [{"op": "cliques", "h": h} for h in "odr"]
    g.case(ev, "huge", g.labels(len(vs)), w=100)
