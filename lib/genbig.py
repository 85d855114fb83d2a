"""Second part of the script generators: larger graphs, larger parameters, high degrees, structured extremes.
Behaviour that only shows beyond some size (word widths, buckets, cutoffs, radii) is out of reach of the small cases."""
import itertools
from graphs import *

BIG = {}
U32 = 2 ** 32 - 1


def big(f):
    BIG[f.__name__.upper()] = f
    return f


def pick(r, lo, hi):
    """A loop-free graph with lo..hi vertices, sparse or structured, for which every query stays cheap."""
    n = r.randint(lo, hi)
    k = r.randrange(12)
    if k == 0:
        g = tree(r, n)
    elif k == 1:
        g = tree(r, n, r.randint(2, 6))
    elif k == 2:
        g = kdeg(r, n, r.randint(2, 6))
    elif k == 3:
        w = r.randint(2, 9)
        g = grid(w, max(1, n // w))
    elif k == 4:
        g = gnp(r, n, r.choice([1.5, 3, 6]) / n)
    elif k == 5:
        g = union(star(n // 2), cycle(max(3, n // 4)), path(max(1, n // 4)))
    elif k == 6:
        g = kpartite(r.randint(1, 3), n)
    elif k == 7:
        g = cycle(n)
    elif k == 8:   # caterpillar with hubs
        m = max(2, n // 8)
        vs, es = path(m)
        vs, es = list(vs), list(es)
        for v in range(m, n):
            vs.append(v)
            es.append((r.randrange(m), v))
        g = vs, es
    elif k == 9:
        g = subdivided(clique(r.randint(4, 7)), r.randint(1, 3))
    elif k == 10:  # clique with pendant trees
        vs, es = clique(r.randint(6, 12))
        vs, es = list(vs), list(es)
        for v in range(len(vs), n):
            es.append((r.randrange(v), v))
            vs.append(v)
        g = vs, es
    else:
        g = union(*(family(r, r.randint(2, 12)) for _ in range(max(2, n // 9))))
    return shuffled(r, dedupe(g))


def dedupe(g):
    vs, es = g
    return list(vs), sorted({(min(e), max(e)) for e in es if e[0] != e[1]})


def starry(r, hubs, leaves, length):
    """Hubs joined in a path; every hub carries many paths of the given length."""
    vs = list(range(hubs))
    es = [(i, i + 1) for i in range(hubs - 1)]
    for h in range(hubs):
        for _ in range(leaves):
            last = h
            for _ in range(length):
                v = len(vs)
                vs.append(v)
                es.append((last, v))
                last = v
    return shuffled(r, (vs, es))


def edits(g, k, count):
    """Long histories on more vertices: hubs, bulk additions with many repetitions, removal of hubs, re-insertion."""
    r = g.rng
    for _ in range(count):
        n = r.randint(12, 90)
        pool = list(range(n))
        us = r.sample(pool, 6)
        ev = [{"op": "new", "h": "g", "k": k}]
        for _ in range(r.randint(6, 12)):
            x = r.random()
            if x < .2:
                c = r.choice(us)
                es = [[c, v] if r.random() < .5 else [v, c] for v in r.sample(pool, r.randint(n // 2, n))]
                ev.append({"op": "add_edges", "h": "g", "es": es + r.sample(es, len(es) // 3) + [[b, a] for a, b in r.sample(es, len(es) // 3)]})
            elif x < .4:
                ev.append({"op": "add_edges", "h": "g", "es": [[r.choice(pool), r.choice(pool)] for _ in range(r.randint(20, 140))]})
            elif x < .5:
                ev.append({"op": "add_vertices", "h": "g", "us": [r.choice(pool) for _ in range(r.randint(5, 60))]})
            elif x < .65:
                ev.append({"op": "remove_vertex", "h": "g", "u": r.choice(us)})
            elif x < .75:
                ev.append({"op": "remove_loops", "h": "g"})
            elif x < .83:
                ev.append({"op": "remove_isolates", "h": "g"})
            elif x < .9:
                ev += [{"op": "remove_edge", "h": "g", "u": r.choice(pool), "v": r.choice(us)} for _ in range(12)]
            elif x < .95:
                v = r.choice(us)
                ev += [{"op": "add_edge", "h": "g", "u": v, "v": v}, {"op": "remove_vertex", "h": "g", "u": v}, {"op": "add_vertex", "h": "g", "u": v}]
            else:
                ev += [{"op": "remove_vertex", "h": "g", "u": v} for v in r.sample(pool, n // 2)]
            if r.random() < .3:
                ev.append({"op": "obs", "h": "g", "us": us})
        ev.append({"op": "obs", "h": "g", "us": us})
        g.case(ev, "long", g.labels(n))


@big
def c01(g):
    edits(g, "ug", g.n(30, 300))


@big
def c05(g):
    edits(g, "dg", g.n(25, 250))


@big
def c02(g):
    r = g.rng
    for _ in range(g.n(25, 250)):
        n = r.randint(20, 70)
        vs, es = gnp(r, n, r.choice([.05, .1, .3]), r.choice([0, .1, .5]))
        live = list(vs)
        us = r.sample(vs, 6)
        ev = [g.mk((vs, es))]
        for _ in range(4):
            if len(live) < 4:
                break
            x = r.random()
            if x < .4:
                s = r.sample(live, r.randint(2, max(2, len(live) // 2)))
                if r.random() < .4:
                    s += r.sample(s, 2)
                ev.append({"op": "contract", "h": "g", "us": s})
                live = [v for v in live if v == s[0] or v not in s]
            elif x < .8:
                c = r.choice(live)
                s = r.sample(live, r.randint(1, max(2, len(live) // 2)))
                ev.append({"op": "contract_into", "h": "g", "u": c, "us": s})
                live = [v for v in live if v == c or v not in s]
            else:
                u, v = r.sample(live, 2)
                ev.append({"op": "contract_pair", "h": "g", "u": u, "v": v})
                live.remove(v)
            ev.append({"op": "obs", "h": "g", "us": us})
        g.case(ev, "long", g.labels(n))


def twisted(r, vs, es, di):
    """The same graph after a degree-preserving exchange of two edges; None if there is none."""
    have = set(es) if di else {(min(e), max(e)) for e in es}
    key = (lambda a, b: (a, b)) if di else (lambda a, b: (min(a, b), max(a, b)))
    for _ in range(30):
        if len(es) < 2:
            return None
        (a, b), (c, d) = r.sample(list(es), 2)
        if not di and r.random() < .5:
            c, d = d, c
        if r.random() < .8 and len({a, b, c, d}) < 4:
            continue
        x, y = key(a, d), key(c, b)
        if x in have or y in have or x == y:
            continue
        return [e for e in es if e not in ((a, b), (c, d), (d, c))] + [x, y]
    return None


def copies(g, k):
    r = g.rng
    di = k == "dg"
    for _ in range(g.n(60, 600)):   # equal degrees, different edges
        n = r.randint(4, 9) if r.random() < .7 else r.randint(10, 40)
        vs, es = gnp(r, n, r.choice([.2, .35, .5]) if n < 10 else 3 / n, .15, di)
        if r.random() < .4 and not di:
            vs, es = shuffled(r, r.choice([union(cycle(3), cycle(3)), cycle(6), union(cycle(4), cycle(4)), cycle(8), union(path(2), path(4)), union(star(3), cycle(3))]))
        t = twisted(r, vs, es, di)
        if t is None:
            continue
        ev = [g.mk((vs, es), "a", k), g.mk((vs, t), "b", k), {"op": "eq", "h": "a", "g": "b"}, {"op": "eq", "h": "b", "g": "a"},
              {"op": "normalize", "h": "b"}]
        g.case(ev, "twist", g.labels(len(vs)))
    for _ in range(g.n(15, 150)):   # larger, one late difference
        n = r.randint(20, 70)
        vs, es = gnp(r, n, 4 / n, .1, di)
        u, v = r.choice(vs), r.choice(vs)
        ev = [g.mk((vs, es), "a", k), {"op": "clone", "h": "a", "to": "b"}, {"op": "eq", "h": "a", "g": "b"}]
        for o in ({"op": "add_edge", "u": u, "v": v}, {"op": "remove_edge", "u": u, "v": v}, {"op": "remove_vertex", "u": u}, {"op": "add_vertex", "u": u}):
            ev += [dict(o, h="b"), {"op": "eq", "h": "a", "g": "b"}, {"op": "eq", "h": "b", "g": "a"}]
        ev += [{"op": "obs", "h": "a", "us": sorted({u, v})}, {"op": "obs", "h": "b", "us": sorted({u, v})}, {"op": "normalize", "h": "a"}]
        g.case(ev, "late", g.labels(n))
    for _ in range(g.n(20, 200)):   # wide and high ids, many operands
        ev = []
        hs = "abcdef"[:r.randint(2, 6)]
        for h in hs:
            top = r.choice([40, 10 ** 4, 3 * 10 ** 7])
            n = r.randint(0, 14)
            names = sorted(r.sample(range(top), n)) if r.random() < .8 else list(range(n))
            ev.append(g.mk(named(r, gnp(r, n, 3 / max(n, 1), .2, di), names), h, k))
        ev += [{"op": "disj_unions", "k": k, "gs": [r.choice(hs) for _ in range(r.randint(2, 7))], "to": "x"}, {"op": "normalize", "h": "x", "to": "nx"},
               {"op": "disj_union", "h": "x", "g": hs[0], "to": "y"}, {"op": "disj_union", "h": hs[1], "g": "nx", "to": "z"}, {"op": "obs", "h": "z", "us": [0, 1, 2]}]
        g.case(ev, "wide")


@big
def c03(g):
    copies(g, "ug")


@big
def c06(g):
    copies(g, "dg")


@big
def c04(g):
    r = g.rng
    todo = [("path", [200]), ("cycle", [199]), ("matching", [90]), ("star", [260]), ("clique", [34]), ("independent", [300]), ("grid", [17, 9]), ("grid", [1, 70]), ("grid", [70, 1]),
            ("biclique", [33, 9]), ("biclique", [2, 70]), ("biclique", [70, 2])]
    todo += [("path", [k]) for k in (31, 32, 33, 63, 64, 65, 127, 128, 129)] + [("star", [k]) for k in (32, 33, 64, 65, 127, 128, 129, 255, 256)]
    for name, p in todo:
        g.case([{"op": "gen", "h": "g", "k": "ug", "name": name, "p": p}, {"op": "gen", "h": "d", "k": "dg", "name": name, "p": p}], "l" + name, w=30)
    for k in (5, 6):                    # every pattern of empty, single and double parts
        for p in itertools.product(range(3), repeat=k):
            if r.random() < g.n(.12, 1):
                g.case([{"op": "gen", "h": "g", "k": "ug", "name": "kpartite", "p": list(p)}], "kp", w=4)
    for p in ([1] * 12, [2] * 9, [20, 1, 1], [1, 1, 20], [0] * 6, [0, 0, 5, 0, 7, 0], [3, 4, 5, 6, 7], [10, 10, 10, 10]):
        g.case([{"op": "gen", "h": "g", "k": "ug", "name": "kpartite", "p": p}], "lkp", w=20)


def reps(g, gr):
    return [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(gr[0]), "to": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(gr[0]), "to": "d"}]


@big
def c07(g):
    r = g.rng
    for _ in range(g.n(24, 250)):
        gr = pick(r, 30, 110)
        vs = gr[0]
        n = len(vs)
        ev = reps(g, gr)
        for h in ("g", "o", "d"):
            for s in (g.perm(vs), r.sample(vs, n // 2), r.sample(vs, min(3, n))):
                ev += [{"op": o, "h": h, "us": s} for o in ("nbhd", "cnbhd")]
                ev.append({"op": "rnbhd", "h": h, "us": s, "r": r.randint(0, 30)})
            ev.append({"op": "subgraph", "h": h, "us": r.sample(vs, r.randint(n // 2, n)), "to": "s"})
            for _ in range(3):
                ev.append({"op": "rnb", "h": h, "u": r.choice(vs), "r": r.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 99, 500])})
        g.case(ev, "long", g.labels(n), w=90)
    for _ in range(g.n(14, 140)):
        n = r.randint(20, 70)
        gr = gnp(r, n, r.choice([1.2, 2, 4]) / n, .1, True)
        if r.random() < .3:
            gr = (list(range(n)), [(i + 1, i) if r.random() < .5 else (i, i + 1) for i in range(n - 1)])
        ev = [g.mk(gr, "g", "dg")]
        for s in (g.perm(gr[0]), r.sample(gr[0], n // 2), r.sample(gr[0], 2)):
            ev += [{"op": o, "h": "g", "us": s} for o in ("nbhd", "cnbhd", "innbhd", "outnbhd")]
            ev += [{"op": "rnbhd", "h": "g", "us": s, "r": r.randint(0, 40)}, {"op": "subgraph", "h": "g", "us": s, "to": "s"}]
        for _ in range(3):
            ev.append({"op": "rnb", "h": "g", "u": r.choice(gr[0]), "r": r.randint(0, 80)})
        g.case(ev, "ldi", g.labels(n), w=60)


@big
def c08(g):
    r = g.rng
    for _ in range(g.n(14, 150)):
        gr = pick(r, 30, 100)
        ev = reps(g, gr) + [{"op": "to_reach", "h": "o", "r": r.randint(1, 3), "weak": r.random() < .5, "to": "r"}]
        ev += [{"op": "iterparts", "h": h} for h in "god"] + [{"op": "obs", "h": h, "us": gr[0][:2]} for h in "odr"]
        g.case(ev, "long", g.labels(len(gr[0])), w=120)
    for _ in range(g.n(10, 100)):
        n = r.randint(20, 50)
        g.case([g.mk(gnp(r, n, r.choice([.05, .3]), .3, True), "g", "dg"), {"op": "obs", "h": "g", "us": [0, 1]}], "ldi", g.labels(n), w=60)
        g.case([g.mk(gnp(r, n, r.choice([.05, .3]), .3), "g"), {"op": "iterparts", "h": "g"}], "lug", g.labels(n), w=40)


@big
def c09(g):
    r = g.rng
    for _ in range(g.n(14, 120)):
        gr = pick(r, 6, 30)
        ev = reps(g, gr) + [{"op": "subdivide", "h": r.choice("god"), "t": r.randint(4, 12), "to": "s"}] if len(gr[1]) < 40 else reps(g, gr)
        ev += [{"op": "invert", "h": r.choice("god"), "to": "i"}, {"op": "invert", "h": "i", "to": "j"}, {"op": "subdivide", "h": "g", "t": 1, "to": "s"}]
        g.case(ev, "lsub", w=90)
    for _ in range(g.n(10, 80)):
        gr = pick(r, 4, 12)
        if len(gr[0]) > 60:
            continue
        gr = named(r, gr, [7, 10 ** 9, 5, 0, 77, 78, 79, 10 ** 6, 4000] + r.sample(range(100, 3 * 10 ** 6), 60))
        g.case([g.mk(gr), {"op": "subdivide", "h": "g", "t": r.randint(1, 6), "to": "s"}], "far", w=20)
    for _ in range(g.n(6, 60)):
        a, b = pick(r, 5, 10), pick(r, 5, 9)
        n = max(len(a[0]), len(b[0]))
        if len(a[0]) * len(b[0]) > 140:
            continue
        g.case([g.mk(a, "a"), g.mk(b, "b"), {"op": "cart", "h": "a", "g": "b", "to": "c"}, {"op": "lexi", "h": "a", "g": "b", "to": "l"}], "lprod", g.labels(n), w=150)
    for x, y in ((clique(7), clique(6)), (path(12), star(6)), (star(9), path(4)), (cycle(9), cycle(7)), ((list(range(8)), []), clique(5)), (clique(5), (list(range(8)), []))):
        g.case([g.mk(x, "a"), g.mk(y, "b"), {"op": "cart", "h": "a", "g": "b", "to": "c"}, {"op": "lexi", "h": "a", "g": "b", "to": "l"}, {"op": "lexi", "h": "b", "g": "a", "to": "m"}], "nprod", w=120)
    for _ in range(g.n(14, 140)):
        n = r.randint(20, 50)
        a, b = gnp(r, n, r.choice([.1, .5]), .1), gnp(r, n, r.choice([.1, .5]), .1)
        keep = [set(g.subset(range(n), .8)) for _ in "ab"]
        a, b = (([v for v in x[0] if v in k], [e for e in x[1] if e[0] in k and e[1] in k]) for x, k in zip((a, b), keep))
        g.case([g.mk(a, "a"), g.mk(b, "b"), {"op": "merge", "h": "a", "g": "b", "to": "m"}, {"op": "intersect", "h": "a", "g": "b", "to": "n"}, {"op": "invert", "h": "a", "to": "i"}], "lsets", g.labels(n), w=60)


@big
def c10(g):
    r = g.rng
    for k in ("ug", "dg"):
        di = k == "dg"
        for _ in range(g.n(20, 200)):
            n = r.randint(4, 9) if r.random() < .5 else r.randint(12, 60)
            vs, es = gnp(r, n, min(.5, 4 / n), .1, di)
            bs = [(vs, es), (vs, twisted(r, vs, es, di) or es)]
            if es:
                x = r.choice(es)
                bs += [(vs, [e for e in es if e != x]), (vs, [e for e in es if e != x] + [(r.choice(vs), r.choice(vs))])]
                y = r.choice(es)
                bs.append(([v for v in vs if v not in x], [e for e in es if not set(e) & set(x)]))
                bs.append(([v for v in vs if v != y[0]], [e for e in es if y[0] not in e]))
            bs.append((vs + [n], es))
            bs.append((vs + [n], es[:-1]))
            ev = [g.mk((vs, es), "a", k)]
            for b in bs:
                ev += [g.mk((list(b[0]), sorted(set(b[1]) if di else {(min(e), max(e)) for e in b[1]})), "b", k), {"op": "compare", "h": "a", "g": "b"}, {"op": "compare", "h": "b", "g": "a"}]
            g.case(ev, "long" + k, g.labels(n + 1), w=60)


@big
def c11(g):
    r = g.rng
    for _ in range(g.n(12, 120)):
        parts = [pick(r, 2, 25) for _ in range(r.randint(2, 6))] + [([0], [])] * r.randint(0, 5)
        gr = shuffled(r, union(*parts))
        if r.random() < .5:
            g.case([g.mk(gr), {"op": "components", "h": "g"}], "long", g.labels(len(gr[0])), w=100)
        else:
            vs, es = gr
            es = [e if r.random() < .5 else (e[1], e[0]) for e in es] + [(b, a) for a, b in es if r.random() < .1]
            g.case([g.mk((vs, sorted(set(es))), "g", "dg"), {"op": "components", "h": "g"}], "ldi", g.labels(len(vs)), w=100)


@big
def c12(g):
    r = g.rng
    for _ in range(g.n(60, 600)):
        n = r.randint(20, 80)
        x = r.randrange(5)
        if x == 0:      # bipartite, then maybe one bad edge
            a = r.randint(1, n - 1)
            es = {(r.randrange(a), r.randrange(a, n)) for _ in range(2 * n)}
            if r.random() < .5:
                u, v = r.sample(range(n), 2)
                es.add((min(u, v), max(u, v)))
            gr = (list(range(n)), sorted(es))
        elif x == 1:    # a long cycle with bipartite decoration
            vs, es = union(cycle(r.randint(15, 61)), tree(r, 15), grid(3, 4))
            vs, es = list(vs), list(es)
            m = len(vs)
            for v in range(m, m + 20):
                vs.append(v)
                es.append((r.randrange(v), v))
            gr = (vs, es)
        elif x == 2:    # many components, at most one of them odd
            parts = [r.choice([path(r.randint(1, 6)), cycle(4), cycle(6), star(4), grid(2, 3), kpartite(2, 3)]) for _ in range(r.randint(4, 10))]
            if r.random() < .7:
                parts.insert(r.randint(0, len(parts)), r.choice([cycle(3), cycle(5), cycle(9), clique(4), subdivided(clique(4), 2)]))
            gr = union(*parts)
        elif x == 3:    # theta graphs and cacti
            vs, es = [0, 1], []
            for _ in range(r.randint(2, 5)):
                last = 0
                for _ in range(r.randint(1, 9)):
                    vs.append(len(vs))
                    es.append((last, vs[-1]))
                    last = vs[-1]
                es.append((last, 1))
            gr = (vs, es)
        else:
            gr = pick(r, 20, 80)
        gr = shuffled(r, dedupe(gr))
        if r.random() < .12:
            v = r.choice(gr[0])
            gr = (gr[0], gr[1] + [(v, v)])
        if r.random() < .15:
            g.case([g.mk((gr[0], [e if r.random() < .5 else (e[1], e[0]) for e in gr[1]]), "g", "dg"), {"op": "bipartite", "h": "g"}], "ldi", g.labels(len(gr[0])), w=20)
        else:
            g.case([g.mk(gr), {"op": "bipartite", "h": "g"}], "long", g.labels(len(gr[0])), w=20)


@big
def c13(g):
    r = g.rng
    bigs = [clique(k) for k in ((9, 17, 33, 65, 66, 100) if not g.deep else range(8, 128, 3))]
    bigs += [kpartite(40, 41), kpartite(66, 70), kpartite(20, 20, 20, 20), kpartite(1, 64), kpartite(2, 64, 2), union(clique(70), path(6)), union(clique(12), clique(33), clique(5))]
    bigs += [gnp(r, n, p) for n, p in ((40, .5), (60, .7), (90, .5), (90, .9))] + [gnp(r, 100, .8)] * (1 if g.deep else 0)
    for _ in range(g.n(6, 80)):    # nested cores
        vs, es = clique(r.randint(5, 40))
        vs, es = list(vs), list(es)
        for v in range(len(vs), len(vs) + r.randint(5, 40)):
            es += [(u, v) for u in r.sample(range(v), min(v, r.choice([1, 2, 4, 7, 8, 9, 15, 16, 17, 31])))]
            vs.append(v)
        bigs.append((vs, es))
    for gr in bigs:
        g.case([g.mk(shuffled(r, gr) if r.random() < .6 else gr), {"op": "degeneracy", "h": "g"}], "mid", g.labels(len(gr[0])), w=10 + len(gr[1]) / 8)
    for _ in range(g.n(25, 250)):
        gr = pick(r, 30, 100)
        g.case(reps(g, gr) + [{"op": "degeneracy", "h": h} for h in "god"], "long", g.labels(len(gr[0])), w=70)


@big
def c14(g):
    r = g.rng
    for _ in range(g.n(16, 160)):
        gr = pick(r, 24, 60) if r.random() < .7 else gnp(r, r.randint(15, 26), r.choice([.5, .8]))
        vs, es = gr
        n = len(vs)
        order = g.perm(vs)
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": order, "to": "o"}]
        for i in range(24):
            x = r.random()
            if x < .3:
                i = r.randrange(n - 1)
                u, v = order[i], order[i + 1]
            elif x < .6 and es:
                u, v = r.choice(es)
            elif x < .7:
                u, v = order[0], order[-1]
            else:
                u, v = r.sample(vs, 2)
            ev.append({"op": "swap", "h": "o", "u": u, "v": v})
            i, j = order.index(u), order.index(v)
            order[i], order[j] = v, u
            if r.random() < .12:
                ev.append({"op": "obs", "h": "o", "us": vs[:3]})
        ev += [{"op": "obs", "h": "o", "us": vs[:3]}, {"op": "leftmost", "h": "o", "us": r.sample(vs, n // 2)}, {"op": "rightmost", "h": "o", "us": r.sample(vs, n // 2)}]
        g.case(ev, "long", g.labels(n), w=120)
    for _ in range(g.n(20, 200)):
        gr = pick(r, 30, 90)
        g.case([g.mk(gr), {"op": "ord_deg", "h": "g", "to": "o"}, {"op": "obs", "h": "o", "us": gr[0][:2]}], "ldeg", g.labels(len(gr[0])), w=70)


@big
def c15(g):
    r = g.rng
    for _ in range(g.n(24, 240)):
        gr = pick(r, 24, 90) if r.random() < .7 else gnp(r, r.randint(20, 40), r.choice([.4, .8]))
        vs = gr[0]
        n = len(vs)
        us = r.sample(vs, min(n, 12))
        how = r.choice([{"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "deg_from", "h": "g", "to": "d"}, {"op": "to_deg", "h": "o", "to": "d"}])
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, how, {"op": "obs", "h": "d", "us": us}, {"op": "leftmost", "h": "d", "us": r.sample(vs, n // 2)},
              {"op": "rightmost", "h": "d", "us": r.sample(vs, n // 2)}]
        if r.random() < .6:
            ev += [{"op": "normalize", "h": "d"}, {"op": "obs", "h": "d", "us": list(range(min(n, 10)))}]
            g.case(ev, "lnorm", w=100)
        else:
            g.case(ev, "long", g.labels(n), w=80)


@big
def c16(g):
    r = g.rng
    for _ in range(g.n(16, 160)):
        gr = pick(r, 24, 60)
        vs = gr[0]
        h, op = r.choice([("o", "ord_with"), ("d", "deg_with")])
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 40])
        ev = [g.mk(gr), {"op": op, "h": "g", "us": g.perm(vs) if r.random() < .6 else sorted(vs), "to": h}]
        ev += [{"op": o, "h": h, "r": k} for o in ("sreach_sets", "wreach_sets", "sreach_sizes", "wreach_sizes")]
        for u in r.sample(vs, 3):
            ev += [{"op": "sreach_set", "h": h, "u": u, "r": k}, {"op": "right_bfs", "h": h, "u": u, "r": r.randint(0, 40)}]
        g.case(ev, "long", g.labels(len(vs)), w=150)
    for gr in (path(40), cycle(30), grid(4, 9), star(40), clique(14), kpartite(7, 7), tree(r, 40, 2)):   # along the order
        vs = gr[0]
        ev = [g.mk(gr)]
        for us in (list(vs), list(vs)[::-1]):
            k = r.choice([5, 9, 17, 50])
            ev += [{"op": "ord_with", "h": "g", "us": us, "to": "o"}, {"op": "wreach_sets", "h": "o", "r": k}, {"op": "sreach_sets", "h": "o", "r": k},
                   {"op": "wreach_sizes", "h": "o", "r": k}, {"op": "sreach_sizes", "h": "o", "r": k},
                   {"op": "right_bfs", "h": "o", "u": us[0], "r": 60}]
        g.case(ev, "mono", g.labels(len(vs)), w=150)


@big
def c17(g):
    r = g.rng
    for _ in range(g.n(18, 180)):
        gr = pick(r, 20, 45) if r.random() < .8 else gnp(r, 14, .6)
        vs = gr[0]
        ev = [g.mk(gr), r.choice([{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "ord_deg", "h": "g", "to": "o"}])]
        for _ in range(2):
            ev += [{"op": "to_reach", "h": "o", "r": r.choice([1, 2, 3, 4, 5, 6, 8, 11]), "weak": r.random() < .5, "to": "r"}, {"op": "obs", "h": "r", "us": vs[:3]}]
        g.case(ev, "long", g.labels(len(vs)), w=150)


@big
def c18(g):
    r = g.rng
    gs = [clique(11), union(clique(9), clique(7), clique(1)), kpartite(2, 2, 2, 2, 2), kpartite(3, 3, 3, 2), kpartite(1, 1, 1, 1, 1, 4), (lambda x: (x[0], x[1][:-1]))(clique(10)),
          star(70), union(cycle(3), cycle(3), cycle(4), clique(6), path(9))]
    gs += [pick(r, 20, 50) for _ in range(g.n(20, 200))] + [gnp(r, r.randint(14, 20), r.choice([.4, .5, .6])) for _ in range(g.n(14, 140))]
    for gr in gs:
        gr = shuffled(r, gr)
        vs = gr[0]
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "cliques", "h": "o"}, {"op": "ord_deg", "h": "g", "to": "p"}, {"op": "cliques", "h": "p"},
              {"op": "deg_from", "h": "g", "to": "d"}, {"op": "cliques", "h": "d"}, {"op": "to_reach", "h": "o", "r": 1, "weak": True, "to": "r"}, {"op": "cliques", "h": "r"}]
        g.case(ev, "long", g.labels(len(vs)), w=60 + (200 if len(gr[1]) > 44 else 0))


@big
def c19(g):
    r = g.rng
    gs = [clique(k) for k in (33, 65, 66, 70, 130)] + [kpartite(*([2] * 20)), kpartite(*([1] * 40 + [5] * 3)), union(clique(12), star(50))]
    gs += [pick(r, 25, 100) for _ in range(g.n(20, 200))] + [gnp(r, r.randint(20, 60), r.choice([.3, .6, .9])) for _ in range(g.n(10, 100))]
    for gr in gs:
        gr = shuffled(r, gr)
        vs = gr[0]
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "colour", "h": "o"}, {"op": "deg_with", "h": "g", "us": g.perm(vs), "to": "d"}, {"op": "colour", "h": "d"}]
        if len(gr[1]) < 300:
            ev += [{"op": "to_reach", "h": "o", "r": 2, "weak": True, "to": "r"}, {"op": "colour", "h": "r"}, {"op": "ord_deg", "h": "g", "to": "p"}, {"op": "colour", "h": "p"}]
        g.case(ev, "long", g.labels(len(vs)), w=80)


@big
def c20(g):
    r = g.rng
    gs = [(pick(r, 30, 90), r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])) for _ in range(g.n(24, 240))]
    gs += [(starry(r, h, l, k), k) for h, l, k in ((1, 12, 1), (2, 9, 1), (1, 22, 2), (2, 20, 2), (1, 40, 3), (3, 6, 1))]
    gs += [(starry(r, r.randint(1, 3), r.randint(4 * k * k - 2, 4 * k * k + 6), r.randint(1, k)), k) for k in (1, 1, 2, 2)]
    for gr, k in gs:
        vs = gr[0]
        n = len(vs)
        t = r.choice([list(vs), r.sample(vs, n // 2), r.sample(vs, min(n, 5))])
        ev = [g.mk(gr)]
        for h, op in (("o", "ord_with"), ("d", "deg_with")):
            hub = sorted(vs, key=lambda v: -sum(v in e for e in gr[1]))[:3]
            order = g.perm(vs)
            if r.random() < .5:   # hubs first or last
                rest = [v for v in order if v not in hub]
                order = hub + rest if r.random() < .7 else rest + hub
            ev.append({"op": op, "h": "g", "us": order, "to": h})
            for w in (True, False):
                ev += [{"op": "domset", "h": h, "r": k, "wit": w}, {"op": "domset", "h": h, "r": k, "wit": w, "us": t}]
        g.case(ev, "long", g.labels(n), w=140)


@big
def c21(g):
    r = g.rng
    gs = [pick(r, 25, 60) for _ in range(g.n(22, 220))] + [starry(r, 2, 9, 2), starry(r, 3, 4, 3), path(60), cycle(45), grid(5, 9)]
    for gr in gs:
        gr = shuffled(r, gr)
        vs = gr[0]
        n = len(vs)
        ev = [g.mk(gr), {"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "deg_from", "h": "g", "to": "d"}]
        for h in "od":
            for d in r.sample([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 100], 2):
                ev += [{"op": "scattered", "h": h, "d": d, "us": g.perm(vs)}, {"op": "scattered", "h": h, "d": d, "us": r.sample(vs, n // 2)}]
        g.case(ev, "long", g.labels(n), w=130)


@big
def c22(g):
    r = g.rng
    gs = [pick(r, 18, 34) for _ in range(g.n(14, 160))]
    gs += [path(26), cycle(24), grid(4, 7), starry(r, 2, 5, 2), starry(r, 1, 4, 6), tree(r, 30, 2)]
    for gr in gs:
        gr = shuffled(r, gr)
        vs = gr[0]
        us = r.sample(vs, min(len(vs), 8))
        sparse = len(gr[1]) <= len(vs) + 4
        ev = [g.mk(gr), {"op": "orient", "h": "g", "to": "t"}]
        for d in sorted(r.sample(range(2, 11 if sparse else 6), 2)):
            ev += [{"op": "augment", "h": "t", "d": d, "f": r.randint(0, 2)}, {"op": "small_dist", "h": "t", "us": us}]
        g.case(ev, "long", g.labels(len(vs)), w=300)


@big
def c23(g):
    r = g.rng
    for _ in range(g.n(14, 160)):
        gr = pick(r, 18, 34)
        vs = gr[0]
        us = vs[:4]
        ev = [g.mk(gr), r.choice([{"op": "orient", "h": "g", "to": "t"}, {"op": "orient_deep", "h": "g", "d": r.randint(1, 8), "to": "t"}])]
        for _ in range(12):
            u, v = r.sample(vs, 2)
            ev.append({"op": "dtf_arc", "h": "t", "u": u, "v": v, "w": r.choice([1, 2, 3, 7, 8, 9, 12, 17])})
        ev += [{"op": "obs", "h": "t", "us": us}] + [{"op": "layer", "h": "t", "d": d, "us": us} for d in (1, r.randint(2, 17))]
        ev += [{"op": "edge_subgraph", "h": "t", "es": g.mixedge(gr[1])[::2], "to": "s"}, {"op": "obs", "h": "s", "us": us}, {"op": "dtf_und", "h": "t", "to": "x"}]
        g.case(ev, "long", g.labels(len(vs)), w=150)


@big
def c24(g):
    r = g.rng
    gs = [pick(r, 18, 34) for _ in range(g.n(12, 140))]
    gs += [path(30), cycle(27), grid(4, 7), starry(r, 2, 7, 1), starry(r, 1, 18, 1), starry(r, 1, 18, 2), starry(r, 2, 6, 2), tree(r, 32, 2)]
    for gr in gs:
        gr = shuffled(r, gr)
        vs = gr[0]
        sparse = len(gr[1]) <= len(vs) + 4
        ev = [g.mk(gr), {"op": "orient", "h": "g", "to": "t"}]
        for d in [r.randint(0, 8 if sparse else 4), r.randint(0, 4)]:
            ev.append({"op": "dtf_domset", "h": "t", "r": d})
        g.case(ev, "long", g.labels(len(vs)), w=300)


@big
def c25(g):
    r = g.rng

    def f(gr, tag, order, sets, w=60):
        pos = {v: i for i, v in enumerate(order)}
        ev = [g.mk(gr), {"op": "deg_with", "h": "g", "us": order, "to": "d"}, {"op": "oracle", "h": "d", "to": "q"}]
        for s in sets:
            s = sorted(set(s), key=lambda v: pos[v])
            ev += [{"op": "traces", "h": "q", "us": s, "g": "d"}, {"op": "ncount", "h": "q", "us": s, "g": "d"}]
            if len(s) <= 7:
                ev.append({"op": "shattered", "h": "q", "us": s, "kk": len(s) + r.choice([0, 0, 1, 2, 3, 5, 5, 64]), "g": "d"})
        g.case(ev, tag, g.labels(len(gr[0])), w=w)

    for _ in range(g.n(14, 140)):      # larger query sets; exponentially many subsets, so modest left degrees
        gr = pick(r, 20, 50)
        vs = gr[0]
        f(gr, "lset", g.perm(vs), [r.sample(vs, min(len(vs), r.randint(*b))) for b in ((4, 7), (4, 7), (8, 20))], 120)
    for k, extra in ((4, 0), (4, 3), (5, 0)):    # large shattered sets
        for drop in (False, True):
            m = 2 ** k
            es = [(i, k + s) for s in range(m) for i in range(k) if s >> i & 1]
            es += [(r.randrange(k), k + m + j) for j in range(extra)]
            if drop:
                es.remove(r.choice(es))
            p = g.perm(range(k + m + extra))
            gr = (list(range(len(p))), [(p[a], p[b]) for a, b in es])
            hubs = [p[i] for i in range(k)]
            rest = p[k:]
            for order in (hubs + rest, rest + hubs if k <= 4 else g.perm(p)):
                f(gr, "lshat", list(order), [hubs, hubs[:-1], hubs[1:]], 150)
    for wide in (65, 66, 90, 128, 129, 140):     # vertices with more left neighbours than a machine word has bits
        vs = list(range(wide + 4))
        hubs = vs[wide:]
        es = [(a, b) for a in range(wide) for b in hubs if r.random() < .93]
        es += [(a, a + 1) for a in range(0, wide - 1, 7)]
        gr = (vs, es)
        order = g.perm(range(wide)) + hubs
        late, early = order[wide - 3:wide], order[:2]
        f(gr, "word", order, [hubs[:2], [late[-1]], [late[-1], hubs[0]], late[:2], [early[0], late[-1]], [hubs[-1]], [order[64 % wide], order[wide - 1]], [order[63], order[64 % wide]]], 250)
    for _ in range(g.n(6, 60)):                  # wide neighbourhoods on both sides of a hub
        a = r.randint(66, 80)
        vs = list(range(a + 6))
        es = {(x, h) for x in range(a) for h in range(a, a + 6) if r.random() < .85}
        order = g.perm(vs)
        f((vs, sorted(es)), "wmix", order, [r.sample(vs, r.randint(1, 3)) for _ in range(4)] + [r.sample(vs[a:], 2)], 250)


@big
def c26(g):
    r = g.rng
    for _ in range(g.n(12, 100)):
        n = r.randint(40, 200)
        labels = sorted(r.sample(range(U32 + 1), n - 2)) if r.random() < .7 else sorted(range(n - 2))
        labels = sorted(set(labels) | {0, U32})
        n = len(labels)
        es = sorted({(a, b) for a, b in ((r.randrange(n), r.randrange(n)) for _ in range(3 * n)) if a <= b} | {(0, n - 1), (n - 1, n - 1), (0, 0)})
        gz = r.random() < .5
        f = "f.gz" if gz else "f.txt"
        ev = [g.mk((list(range(n)), es)), {"op": "io_write", "h": "g", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": "ug", "to": "b"},
              {"op": "io_read", "file": f, "via": "gz" if gz else "txt", "k": "ug", "to": "b"},
              {"op": "vseq", "h": "q", "us": [r.randrange(n) for _ in range(400)]}, {"op": "vset", "h": "s", "us": r.sample(range(n), n // 2)}]
        for h, k in (("q", "seq"), ("s", "set")):
            for z in (True, False):
                x = "h" + h + (".gz" if z else ".txt")
                ev += [{"op": "io_write", "h": h, "file": x, "gz": z}, {"op": "io_read", "file": x, "via": "file", "k": k, "to": "b"}, {"op": "io_read", "file": x, "via": "gz" if z else "txt", "k": k, "to": "b"}]
        # a shorter content over a longer one
        ev += [{"op": "vseq", "h": "q2", "us": [0]}, {"op": "vset", "h": "s2", "us": []}, {"op": "io_write", "h": "q2", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": "seq", "to": "b"},
               {"op": "io_write", "h": "s2", "file": f, "gz": gz}, {"op": "io_read", "file": f, "via": "file", "k": "set", "to": "b"}]
        g.case(ev, "long", labels, w=150)


@big
def c27(g):
    r = g.rng
    ev = []

    def parse(data, k, wrap="plain"):
        via = r.choice(["gz", "file"]) if wrap == "gz" else r.choice(["txt", "file", "buf"])
        ev.append({"op": "io_parse", "bytes": list(data), "wrap": wrap, "dmg": "none", "at": 0, "via": via, "file": "f." + ("gz" if wrap == "gz" else "txt"), "ext": "gz" if wrap == "gz" else "txt", "miss": False, "k": k})

    bad = [b"x", b"", b" ", b"1 2 3", b"-1", b"4294967296", b"1 -2", b"1 4294967296", b"\xff", b"1 \xff", b"1\t\t", b"1 2\xc3", b"# 1 2", b"1,2", b"1 2 ", b"1  2", b"\xef\xbb\xbf1 2", b"1 2\r\r", b"1 2.0", b"1 2 #"]
    for _ in range(g.n(90, 900)):    # a late defect in a longer file
        k = r.choice(["ug", "ug", "set", "seq"])
        n = r.randint(8, 60)
        lines = [f"{r.randrange(50)} {r.randrange(50)}".encode() if k == "ug" else str(r.randrange(50)).encode() for _ in range(n)]
        if r.random() < .75:
            lines.insert(r.choice([0, n, n - 1, r.randrange(n)]), r.choice(bad))
        data = (b"\r\n" if r.random() < .2 else b"\n").join(lines) + (b"\n" if r.random() < .7 else b"")
        parse(data, k, "gz" if r.random() < .4 else "plain")
        if len(ev) >= 8:
            g.case(list(ev), "late")
            ev.clear()
    for k in ("ug", "set", "seq"):   # very long tokens and very long separators
        for t in (b"0" * 300 + b"7", b"1" * 300, b"0" * 60, b"4294967295" + b" " * 300, b" " * 300 + b"5", b"\t" * 40 + b"5", b"5" + b"\x0b\x0c" * 9, b"5" + b"\xc2\xa0" * 9, b"5\xe2\x80\xa8", b"\xe3\x80\x805"):
            for s in ((b"%s 1", b"1 %s", b"%s %s") if k == "ug" else (b"%s", b"1\n%s", b"%s\n1\n")):
                parse(s.replace(b"%s", t), k)
                parse(s.replace(b"%s", t) + b"\n", k, "gz")
    while ev:
        g.case(ev[:20], "tok")
        del ev[:20]


@big
def c28(g):
    r = g.rng
    for _ in range(g.n(60, 600)):
        n = r.randint(10, 60)
        us = r.sample(range(n), 5)
        cols = r.choice([3, 12, 70, 300, 5000])

        def build(h):
            if r.random() < .5:
                return {"op": r.choice(["col_new", "col_map"]), "h": h, "ps": [[r.randrange(n), r.randrange(cols)] for _ in range(r.randint(5, 60))]}
            return {"op": "col_sets", "h": h, "sets": [r.sample(range(n), r.randint(0, 5)) for _ in range(r.randint(2, 24))]}

        ev = [build("a"), build("b"), {"op": "col_obs", "h": "a", "us": us}]
        for _ in range(r.randint(2, 5)):
            x = r.random()
            if x < .5:
                ev += [{"op": "col_extend", "h": "a", "g": "b"}, {"op": "col_obs", "h": "a", "us": us}]
            elif x < .7:
                ev += [{"op": "col_subset", "h": "a", "us": r.sample(range(n), r.randint(0, n)), "to": "c"}, {"op": "col_extend", "h": "c", "g": "a"}, {"op": "col_obs", "h": "c", "us": us}]
            elif x < .85:
                ev += [{"op": "col_insert", "h": r.choice("ab"), "u": r.randrange(n), "c": r.randrange(cols)}, {"op": "col_eq", "h": "a", "g": "b"}]
            else:
                ev.append(build("b"))
        ev += [{"op": "col_subset", "h": "a", "us": list(range(n)), "to": "e"}, {"op": "col_eq", "h": "a", "g": "e"}, {"op": "col_insert", "h": "e", "u": us[0], "c": cols + 1}, {"op": "col_eq", "h": "a", "g": "e"}, {"op": "col_obs", "h": "a", "us": us}]
        g.case(ev, "long", g.labels(n), w=30)


@big
def c29(g):
    r = g.rng
    for _ in range(g.n(12, 120)):
        gr = pick(r, 18, 40)
        vs = gr[0]
        us = vs[:4]
        ev = [g.mk(gr), r.choice([{"op": "ord_with", "h": "g", "us": g.perm(vs), "to": "o"}, {"op": "ord_deg", "h": "g", "to": "o"}])]
        ev += [{"op": "swap", "h": "o", "u": r.choice(vs), "v": r.choice(vs)} for _ in range(r.randint(0, 12))]
        k = r.choice([1, 2, 3, 5, 7])
        ev += [{"op": "to_deg", "h": "o", "to": "d"}, {"op": "to_reach", "h": "o", "r": r.choice([1, 2, 3, 5]), "weak": r.random() < .5, "to": "r"}]
        ev += [{"op": "obs", "h": h, "us": us} for h in "odr"]
        for h in "odr":
            ev += [{"op": "cliques", "h": h}, {"op": "colour", "h": h}]
        for h in "od":
            ev += [{"op": "wreach_sets", "h": h, "r": k}, {"op": "sreach_sets", "h": h, "r": k}, {"op": "subgraph", "h": h, "us": g.perm(vs), "to": "b"}, {"op": "eq", "h": "b", "g": "g"}, {"op": "from_edges", "h": h, "to": "fe"}]
        g.case(ev, "long", g.labels(len(vs)), w=250)
