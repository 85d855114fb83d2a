"""Graph families for the script generators.  A graph is a pair (list of vertices, list of edges)."""
import itertools, os

HERE = os.path.dirname(os.path.abspath(__file__))


def atlas(lo, hi):
    """All graphs with lo..hi vertices up to isomorphism (hi <= 7)."""
    for line in open(os.path.join(HERE, "..", "data", "atlas.txt")):
        n, es = line.strip().split(":")
        n = int(n)
        if lo <= n <= hi:
            yield list(range(n)), [(int(e[0]), int(e[1])) for e in es.split(",") if e]


def labelled(n, loops=False):
    """All labelled graphs on 0..n-1."""
    prs = list(itertools.combinations_with_replacement(range(n), 2) if loops else itertools.combinations(range(n), 2))
    for m in range(1 << len(prs)):
        yield list(range(n)), [p for i, p in enumerate(prs) if m >> i & 1]


def labelled_di(n, loops=False):
    prs = [(a, b) for a in range(n) for b in range(n) if loops or a != b]
    for m in range(1 << len(prs)):
        yield list(range(n)), [p for i, p in enumerate(prs) if m >> i & 1]


def gnp(rng, n, p, loops=0.0, di=False):
    es = []
    for a in range(n):
        for b in range(n):
            if a == b:
                if rng.random() < loops:
                    es.append((a, a))
            elif (di or a < b) and rng.random() < p:
                es.append((a, b))
    return list(range(n)), es


def tree(rng, n, spread=None):
    return list(range(n)), [(rng.randrange(max(0, v - spread) if spread else 0, v), v) for v in range(1, n)]


def kdeg(rng, n, k):
    return list(range(n)), [(u, v) for v in range(1, n) for u in rng.sample(range(v), min(v, rng.randint(0, k)))]


def path(n):
    return list(range(n)), [(i, i + 1) for i in range(n - 1)]


def cycle(n):
    return list(range(n)), [(i, (i + 1) % n) for i in range(n)]


def clique(n):
    return list(range(n)), list(itertools.combinations(range(n), 2))


def star(n):
    return list(range(n + 1)), [(0, i) for i in range(1, n + 1)]


def grid(w, h):
    return list(range(w * h)), [(i, i + 1) for i in range(w * h) if i % w != w - 1] + [(i, i + w) for i in range(w * h - w)]


def kpartite(*parts):
    col = [i for i, p in enumerate(parts) for _ in range(p)]
    n = len(col)
    return list(range(n)), [(a, b) for a in range(n) for b in range(a + 1, n) if col[a] != col[b]]


def union(*gs):
    vs, es = [], []
    for v, e in gs:
        o = len(vs)
        vs += [x + o for x in v]
        es += [(a + o, b + o) for a, b in e]
    return vs, es


def subdivided(g, t):
    vs, es = g
    n = len(vs)
    vs, out = list(vs), []
    for a, b in es:
        last = a
        for _ in range(t):
            vs.append(n)
            out.append((last, n))
            last = n
            n += 1
        out.append((last, b))
    return vs, out


def shuffled(rng, g):
    """The same graph with permuted names."""
    vs, es = g
    p = list(vs)
    rng.shuffle(p)
    f = dict(zip(vs, p))
    return sorted(p), [(f[a], f[b]) for a, b in es]


def named(rng, g, names):
    """The graph with vertices renamed to the given (at least as many) distinct names."""
    vs, es = g
    p = rng.sample(list(names), len(vs))
    f = dict(zip(vs, p))
    return sorted(p), [(f[a], f[b]) for a, b in es]


def family(rng, n, kinds=None):
    """A random loop-free graph with about n vertices from a mixed bag of families."""
    k = rng.choice(kinds or ["sparse", "mid", "dense", "tree", "lobster", "kdeg", "cycle", "path", "grid", "star", "kpart", "clq", "union", "sub", "cyclechord", "split"])
    if k == "sparse":
        g = gnp(rng, n, 1.5 / max(n, 1))
    elif k == "mid":
        g = gnp(rng, n, 3.0 / max(n, 1))
    elif k == "dense":
        g = gnp(rng, n, rng.choice([0.5, 0.7, 0.9]))
    elif k == "tree":
        g = tree(rng, n)
    elif k == "lobster":
        g = tree(rng, n, 3)
    elif k == "kdeg":
        g = kdeg(rng, n, rng.randint(1, 4))
    elif k == "cycle":
        g = cycle(max(3, n))
    elif k == "path":
        g = path(n)
    elif k == "grid":
        w = rng.randint(2, max(2, int(n ** 0.5) + 1))
        g = grid(w, max(1, n // w))
    elif k == "star":
        g = union(star(max(1, n // 2)), tree(rng, max(1, n - n // 2 - 1)))
    elif k == "kpart":
        parts = []
        left = n
        while left > 0:
            x = rng.randint(1, max(1, left // 2))
            parts.append(x)
            left -= x
        g = kpartite(*parts)
    elif k == "clq":
        m = rng.randint(2, max(2, min(n, 8)))
        vs, es = clique(m)
        es = list(es)
        for v in range(m, n):
            vs.append(v)
            if rng.random() < .8:
                es.append((rng.randrange(v), v))
        g = vs, es
    elif k == "union":
        a = max(1, n // 2)
        g = union(family(rng, a), family(rng, max(1, n - a)))
    elif k == "sub":
        g = subdivided(gnp(rng, max(3, n // 3), 0.5), 1)
    elif k == "cyclechord":
        vs, es = cycle(max(4, n))
        es = list(es)
        for _ in range(rng.randint(1, 3)):
            a, b = rng.sample(vs, 2)
            if (a, b) not in es and (b, a) not in es:
                es.append((a, b))
        g = vs, es
    else:  # split graph: clique plus independent set
        m = max(2, n // 2)
        vs, es = clique(m)
        es = list(es)
        for v in range(m, n):
            vs.append(v)
            es += [(u, v) for u in range(m) if rng.random() < .4]
        g = vs, es
    vs, es = shuffled(rng, g)
    seen, out = set(), []
    for a, b in es:
        if a != b and (min(a, b), max(a, b)) not in seen:
            seen.add((min(a, b), max(a, b)))
            out.append((a, b))
    return vs, out
