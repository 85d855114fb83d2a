----------------------------- MODULE Graphbench -----------------------------
(***************************************************************************)
(* The abstract state machine of the graphbench library.                    *)
(*                                                                          *)
(* `store' maps handles to abstract objects (graphs, digraphs, ordered      *)
(* graphs, reach graphs, augmentations, oracles, colourings, collections,   *)
(* files).  Every public call is one action whose parameters are the        *)
(* arguments and the observed result: the action is enabled exactly when    *)
(* the result is one the specification allows in the current state.  Where  *)
(* the library may choose (an order, a witness, a dominating set, the arcs  *)
(* of an augmentation) the action states what every choice must satisfy     *)
(* and adopts the observed one.                                             *)
(***************************************************************************)
EXTENDS Graphs, Orders, TextFormat, Families, Augmentations, Operations, FiniteSetsExt

VARIABLE store

Has(h) == h \in DOMAIN store
Obj(h) == store[h]
Kind(h) == store[h].k
G(h) == store[h].g
Put(h, o) == store' = TLCEval((h :> o) @@ store)
Keep == UNCHANGED store

Ug(g) == [k |-> "ug", g |-> g]
Dg(d) == [k |-> "dg", g |-> d]
Ord(g, ord) == [k |-> "ord", g |-> g, ord |-> ord, pos |-> PosOf(ord)]
Deg(g, ord) == [k |-> "deg", g |-> g, ord |-> ord, pos |-> PosOf(ord)]
Reach(g, ord, r, weak, sets) == [k |-> "reach", g |-> g, ord |-> ord, pos |-> PosOf(ord), r |-> r, weak |-> weak, sets |-> sets]
\* the undirected graph that a representation stands for
UG(h) == IF Kind(h) = "dg" THEN Underlying(G(h)) ELSE G(h)
Undirected(h) == Kind(h) \in {"ug", "ord", "deg"}
Listable(h) == Kind(h) \in {"ug", "dg", "ord", "deg"}
Linear(h) == Kind(h) \in {"ord", "deg", "reach"}

---------------------------------------------------------------------------
(* Recorded bare graphs *)
IsGraphRec(r, g) ==
  /\ r.n = Cardinality(DOMAIN g)
  /\ r.m = NumEdges(g)
  /\ Lists(r.vs, DOMAIN g)
  /\ Lists(r.es, Edges(g))
IsDigraphRec(r, d) ==
  /\ r.n = Cardinality(DOMAIN d)
  /\ r.m = Cardinality(Arcs(d))
  /\ Lists(r.vs, DOMAIN d)
  /\ Lists(r.as, Arcs(d))
\* the graph of a well-formed record
RecGraph(r) == MkGraph(Range(r.vs), Range(r.es))

---------------------------------------------------------------------------
(* C01, C05: construction and editing *)
New(h, k, res) ==
  /\ res = TRUE
  /\ Put(h, [k |-> k, g |-> EmptyGraph])

FromIter(h, k, es, res) ==
  /\ res = TRUE
  /\ Put(h, IF k = "ug" THEN Ug(GAddEdges(EmptyGraph, Range(es))) ELSE Dg(DAddArcs(EmptyGraph, Range(es))))

\* add all vertices, then all edges; reports how many were new
Mk(h, k, vs, es, res) ==
  LET V == Range(vs)
      g0 == GAddVertices(EmptyGraph, V)
      g == IF k = "ug" THEN GAddEdges(g0, Range(es)) ELSE DAddArcs(g0, Range(es))
  IN  /\ res = <<Cardinality(V), IF k = "ug" THEN NumEdges(g) ELSE Cardinality(Arcs(g))>>
      /\ Put(h, [k |-> k, g |-> g])

Editable(h) == Kind(h) \in {"ug", "dg"}
SetG(h, g) == Put(h, [store[h] EXCEPT !.g = g])

AddVertex(h, u, res) ==
  /\ Editable(h)
  /\ res = (u \notin DOMAIN G(h))
  /\ SetG(h, GAddVertex(G(h), u))
RemoveVertex(h, u, res) ==
  /\ Editable(h)
  /\ res = (u \in DOMAIN G(h))
  /\ SetG(h, GRemoveVertices(G(h), {u}))
AddEdge(h, u, v, res) ==
  /\ Editable(h)
  /\ res = ~(u \in DOMAIN G(h) /\ v \in G(h)[u])
  /\ SetG(h, IF Kind(h) = "ug" THEN GAddEdge(G(h), u, v) ELSE DAddArc(G(h), u, v))
RemoveEdge(h, u, v, res) ==
  /\ Editable(h)
  /\ res = (u \in DOMAIN G(h) /\ v \in G(h)[u])
  /\ SetG(h, IF Kind(h) = "ug" THEN GRemoveEdge(G(h), u, v) ELSE DRemoveArc(G(h), u, v))
AddVertices(h, us, res) ==
  /\ Editable(h)
  /\ res = Cardinality(Range(us) \ DOMAIN G(h))
  /\ SetG(h, GAddVertices(G(h), Range(us)))
AddEdges(h, es, res) ==
  /\ Editable(h)
  /\ LET g == IF Kind(h) = "ug" THEN GAddEdges(G(h), Range(es)) ELSE DAddArcs(G(h), Range(es))
         size(x) == IF Kind(h) = "ug" THEN NumEdges(x) ELSE Cardinality(Arcs(x))
     IN  /\ res = size(g) - size(G(h))
         /\ SetG(h, g)
RemoveLoops(h, res) ==
  /\ Editable(h)
  /\ res = Cardinality(Loops(G(h)))
  /\ SetG(h, GRemoveLoops(G(h)))
RemoveIsolates(h, res) ==
  /\ Editable(h)
  /\ LET I == {v \in DOMAIN G(h) : G(h)[v] = {} /\ (Kind(h) = "dg" => InN(G(h), v) = {})}
     IN  /\ res = Cardinality(I)
         /\ SetG(h, GRemoveVertices(G(h), I))

(* C02: contractions *)
ContractInto(h, c, us, res) ==
  /\ Kind(h) = "ug"
  /\ c \in DOMAIN G(h)
  /\ Range(us) \subseteq DOMAIN G(h)
  /\ res = TRUE
  /\ SetG(h, GContract(G(h), c, Range(us)))
Contract(h, us, res) ==
  /\ Kind(h) = "ug"
  /\ us # <<>>
  /\ Range(us) \subseteq DOMAIN G(h)
  /\ res = us[1]
  /\ SetG(h, GContract(G(h), us[1], Range(us)))
ContractPair(h, u, v, res) ==
  /\ Kind(h) = "ug"
  /\ u # v
  /\ {u, v} \subseteq DOMAIN G(h)
  /\ res = TRUE
  /\ SetG(h, GContract(G(h), u, {v}))

(* C03, C06: copies, equality, relabelling, unions *)
Clone(h, to, res) ==
  /\ res = TRUE
  /\ Put(to, Obj(h))
Equal(h, g, res) ==
  /\ Editable(h) /\ Kind(h) = Kind(g)
  /\ res = <<G(h) = G(g), G(h) # G(g)>>
  /\ Keep

RankMap(V) == TLCEval([v \in V |-> RankIn(V, v)])
Normalize(h, to, res) ==
  /\ Editable(h)
  /\ \E V \in {DOMAIN G(h)} : \E rk \in {RankMap(V)} : \E g \in {GRename(G(h), rk)} :
         /\ IF Kind(h) = "ug" THEN IsGraphRec(res.g, g) ELSE IsDigraphRec(res.g, g)
         /\ Lists(res.map, {<<rk[v], v>> : v \in V})
         /\ IF to = "" THEN Keep ELSE Put(to, [k |-> Kind(h), g |-> g])
DisjUnionOf(h, g, to, res) ==
  /\ (Kind(h) = "ug" /\ Undirected(g)) \/ (Kind(h) = "dg" /\ Kind(g) = "dg")
  /\ LET u == DisjUnion(G(h), G(g))
     IN  /\ IF Kind(h) = "ug" THEN IsGraphRec(res, u) ELSE IsDigraphRec(res, u)
         /\ Put(to, [k |-> Kind(h), g |-> u])
RECURSIVE FoldUnion(_, _)
FoldUnion(g, hs) == IF hs = <<>> THEN g ELSE FoldUnion(DisjUnion(g, G(hs[1])), Tail(hs))
DisjUnions(k, gs, to, res) ==
  /\ \A i \in DOMAIN gs : Kind(gs[i]) = k
  /\ LET u == FoldUnion(EmptyGraph, gs)
     IN  /\ IF k = "ug" THEN IsGraphRec(res, u) ELSE IsDigraphRec(res, u)
         /\ Put(to, [k |-> k, g |-> u])

---------------------------------------------------------------------------
(* C04: generators.  GenN = number of vertices, GenArcs = the arcs of the    *)
(* directed variant (their undirected version for graphs)                    *)
Generate(h, k, name, p, res) ==
  LET n == GenN(name, p)
      A == GenArcs(name, p)
      g == IF k = "ug" THEN GAddEdges(GAddVertices(EmptyGraph, 0..(n - 1)), A)
           ELSE DAddArcs(GAddVertices(EmptyGraph, 0..(n - 1)), A)
  IN  /\ IF k = "ug" THEN IsGraphRec(res, g) ELSE IsDigraphRec(res, g)
      /\ Put(h, [k |-> k, g |-> g])

---------------------------------------------------------------------------
(* Queries.  us = the vertices asked for, members of the graph or not *)
Basic(r, g, m, us) ==
  /\ r.n = Cardinality(DOMAIN g)
  /\ r.len = r.n
  /\ r.m = m
  /\ r.empty = (r.n = 0)
  /\ Lists(r.vs, DOMAIN g)
  /\ Lists(r.con, Range(us) \cap DOMAIN g)
Adjacency(r, g, us) == Lists(r.adj, {e \in Range(us) \X Range(us) : Adj(g, e[1], e[2])})
OnMap(s, us, F(_)) == s = [i \in DOMAIN us |-> <<us[i], F(us[i])>>]

\* neighbour lists and the iterators built on them
Iterated(r, gr) ==
  \E g \in {gr} : \E E \in {Edges(g)} :
    LET nb(v) == g[v]
    IN  /\ IsSetMap(r.nbs, DOMAIN g, nb)
        /\ IsSetMap(r.nh, DOMAIN g, nb)
        /\ Lists(r.edges, E)
        /\ Lists(r.mixv, DOMAIN g)
        /\ Lists(r.mixe, E)

ObsUg(gr, us, r) ==
  \E g \in {gr} :
    LET deg(v) == Degree(g, v)
    IN  /\ Basic(r, g, NumEdges(g), us)
        /\ Adjacency(r, g, us)
        /\ IsMap(r.degs, DOMAIN g, deg)
        /\ OnMap(r.deg, us, deg)
        /\ Iterated(r, g)

(* The undirected view of a digraph lists neighbours arc by arc, so an       *)
(* antiparallel pair or a loop may show twice there.                         *)
SameSetMap(s, D, F(_)) ==
  /\ Len(s) = Cardinality(D)
  /\ {p[1] : p \in Range(s)} = D
  /\ \A i \in DOMAIN s : Range(s[i][2]) = F(s[i][1])
IteratedDg(r, d) ==
  \E und \in {Underlying(d)} : \E UE \in {Edges(und)} :
    LET nb(v) == und[v]
        up(es) == {Pair(e) : e \in Range(es)}
    IN  /\ SameSetMap(r.nbs, DOMAIN d, nb)
        /\ SameSetMap(r.nh, DOMAIN d, nb)
        /\ up(r.edges) = UE
        /\ Lists(r.mixv, DOMAIN d)
        /\ up(r.mixe) = UE
ObsDg(dig, us, r) ==
  \E d \in {dig} : \E und \in {Underlying(d)}, tr \in {Transpose(d)}, A \in {Arcs(d)} :
    LET deg(v) == IF v \in DOMAIN d THEN Cardinality(d[v]) + Cardinality(tr[v]) ELSE 0
        nb(v) == und[v]
        innb(v) == tr[v]
        outnb(v) == d[v]
        ind(v) == Cardinality(tr[v])
        outd(v) == Cardinality(d[v])
    IN  /\ Basic(r, d, Cardinality(A), us)
        /\ Adjacency(r, und, us)
        /\ IsMap(r.degs, DOMAIN d, deg)
        /\ OnMap(r.deg, us, deg)
        /\ IteratedDg(r, d)
        /\ SameSetMap(r.dnbs, DOMAIN d, nb)
        /\ Lists(r.arcs, A)
        /\ Lists(r.has, {e \in Range(us) \X Range(us) : HasArc(d, e[1], e[2])})
        /\ IsMap(r.ind, DOMAIN d, ind)
        /\ IsMap(r.outd, DOMAIN d, outd)
        /\ IsMap(r.inds, DOMAIN d, ind)
        /\ IsMap(r.outds, DOMAIN d, outd)
        /\ IsSetMap(r.inn, DOMAIN d, innb)
        /\ IsSetMap(r.outn, DOMAIN d, outnb)
        /\ IsSetMap(r.inh, DOMAIN d, innb)
        /\ IsSetMap(r.outh, DOMAIN d, outnb)

\* queries of everything that has a linear order; s lists pairs (vertex, ordered list)
OrderedMap(o, s, F(_)) ==
  /\ Len(s) = Len(o.ord)
  /\ \A i \in DOMAIN s : s[i][1] = o.ord[i] /\ ListsInOrder(o, s[i][2], F(o.ord[i]))
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i][2] < s[i + 1][2]
MaxVal(D, F(_)) == MaxOf({F(x) : x \in D}, 0)
ObsLin(lin, us, r) ==
  \E o \in {lin} : \E g \in {o.g} :
  \E L \in {[v \in DOMAIN g |-> Left(o, v)]}, R \in {[v \in DOMAIN g |-> Right(o, v)]} :
    LET left(v) == L[v]
        ldeg(v) == IF v \in DOMAIN g THEN Cardinality(L[v]) ELSE 0
        rdeg(v) == IF v \in DOMAIN g THEN Cardinality(R[v]) ELSE 0
        deg(v) == Degree(g, v)
    IN  /\ Basic(r, g, NumEdges(g), us)
        /\ r.vs = o.ord
        /\ Adjacency(r, g, us)
        /\ IsMap(r.degs, DOMAIN g, deg)
        /\ OnMap(r.deg, us, deg)
        /\ [i \in DOMAIN r.idx |-> r.idx[i][1]] = o.ord
        /\ Increasing(r.idx)
        /\ OrderedMap(o, r.left, left)
        /\ OrderedMap(o, r.lnh, left)
        /\ OnMap(r.ldeg, us, ldeg)
        /\ OnMap(r.rdeg, us, rdeg)
        /\ IsMap(r.ldegs, DOMAIN g, ldeg)
        /\ IsMap(r.rdegs, DOMAIN g, rdeg)
        /\ r.maxl = MaxVal(DOMAIN g, ldeg)
        /\ r.maxr = MaxVal(DOMAIN g, rdeg)
ObsOrd(o, us, r) ==
  LET right(v) == Right(o, v)
  IN  /\ ObsLin(o, us, r)
      /\ \A i \in DOMAIN r.idx : r.idx[i][2] = i - 1
      /\ Iterated(r, o.g)
      /\ OrderedMap(o, r.right, right)
FirstOf(o) == IF o.ord = <<>> THEN <<>> ELSE <<o.ord[1]>>
ObsDeg(o, us, r) ==
  LET right(v) == Right(o, v)
      left(v) == Left(o, v)
  IN  /\ ObsLin(o, us, r)
      /\ Iterated(r, o.g)
      /\ IsSetMap(r.right, DOMAIN o.g, right)
      /\ OrderedMap(o, r.lslice, left)
      /\ OrderedMap(o, r.iter, left)
      /\ r.first = FirstOf(o)
      /\ Lists(r.adjo, {e \in Range(us) \X Range(us) : Adj(o.g, e[1], e[2]) /\ o.pos[e[1]] < o.pos[e[2]]})
\* one recorded reachable set x against the set of pairs (vertex, distance)
ReachRec(o, x, S) ==
  /\ x.len = Cardinality(S)
  /\ x.empty = (S = {})
  /\ Len(x.at) = o.r
  /\ \A d \in 1..o.r : ListsInOrder(o, x.at[d], {p[1] : p \in {q \in S : q[2] = d}})
ObsReach(lin, us, r) ==
  \E o \in {lin} : \E n \in {Len(o.ord)} :
    /\ ObsLin(o, us, r)
    /\ r.depth = o.r
    /\ r.first = FirstOf(o)
    /\ Len(r.reach) = n /\ Len(r.all) = n /\ Len(r.iter) = n /\ Len(r.next) = n
    /\ \A i \in 1..n :
         \E u \in {o.ord[i]} : \E S \in {o.sets[u]} :
             /\ r.reach[i][1] = u /\ ReachRec(o, r.reach[i][2], S)
             /\ r.iter[i][1] = u /\ ReachRec(o, r.iter[i][2], S)
             /\ r.all[i] = <<u, Concat(r.reach[i][2].at)>>
             /\ r.next[i][1] = u
             /\ IF i = n THEN Len(r.next[i]) = 1
                ELSE ReachRec(o, r.next[i][2], o.sets[o.ord[i + 1]])

---------------------------------------------------------------------------
(* C22 - C24: augmentations.  arcs = set of (tail, head, weight); base = the *)
(* graph whose distances it answers (hasbase = FALSE after foreign arcs)     *)
\* the recorded state of an augmentation
DtfRec(r) == Dtf(Range(r.vs), Range(r.arcs), r.depth, FALSE, EmptyGraph)
DtfRecOk(r) == Sure(Distinct(r.vs) /\ Distinct(r.arcs) /\ WellFormed(DtfRec(r)))

Orient(h, to, res) ==
  /\ Undirected(h)
  /\ LoopFree(G(h))
  /\ Sure(IsOrientation(res, G(h)))
  /\ Put(to, Dtf(DOMAIN G(h), {<<a[1], a[2], 1>> : a \in Range(res)}, 1, TRUE, G(h)))
Grows(o, n, d) ==
  /\ n.vs = o.vs
  /\ o.arcs \subseteq n.arcs
  /\ Sure(\A a \in n.arcs \ o.arcs : a[3] > o.depth)
  /\ n.depth = Max(o.depth, d)
  /\ d <= o.depth => n.arcs = o.arcs
Augment(h, d, res) ==
  /\ Kind(h) = "dtf"
  /\ DtfRecOk(res)
  /\ LET o == Obj(h)
         n == [DtfRec(res) EXCEPT !.hasbase = o.hasbase, !.base = o.base]
     IN  /\ Grows(o, n, d)
         /\ o.hasbase => Sure(ExactOracle(n))
         /\ Put(h, n)
DtfAddVertex(h, u, res) ==
  /\ Kind(h) = "dtf"
  /\ res = TRUE
  /\ LET o == Obj(h)
     IN  Put(h, [o EXCEPT !.vs = @ \cup {u}, !.base = GAddVertex(@, u)])
\* the depth grows to the weight; the distances of the original graph are no longer promised
DtfAddArc(h, u, v, w, res) ==
  /\ Kind(h) = "dtf"
  /\ res = TRUE
  /\ LET o == Obj(h)
     IN  Put(h, Dtf(o.vs \cup {u, v}, o.arcs \cup {<<u, v, w>>}, Max(o.depth, w), FALSE, EmptyGraph))
SmallDistances(h, us, res) ==
  /\ Kind(h) = "dtf"
  /\ LET o == Obj(h)
         n == Len(us)
         inm == InMap(o)
     IN  /\ Len(res) = n * n
         /\ Sure(\A i \in 1..n :
              LET L == TLCEval(IF o.hasbase THEN Layers(o.base, {us[i]}, o.depth) ELSE <<>>)
                  dist(v) == LET I == {k \in DOMAIN L : v \in L[k]} IN IF I = {} THEN -1 ELSE (CHOOSE k \in I : TRUE) - 1
              IN  \A j \in 1..n :
                    res[(i - 1) * n + j] = <<us[i], us[j], IF o.hasbase THEN dist(us[j]) ELSE DistBy(o, inm, us[i], us[j])>>)
         /\ Keep
ObsDtf(aug, us, r) ==
  \E o \in {aug} : \E V \in {o.vs}, und \in {DtfUnd(o)}, P \in {Plain(o.arcs)}, D \in {1..o.depth} :
  \E inm \in {InMap(o)}, outs \in {[v \in o.vs |-> Cardinality({a \in o.arcs : a[1] = v})]},
     at \in {[d \in 1..o.depth |-> ArcsAt(o, d)]} :
    LET UU == Range(us) \X Range(us)
        ind(v) == Cardinality(inm[v])
        outd(v) == outs[v]
        deg(v) == Cardinality(inm[v]) + outs[v]
        \* in-neighbours over all weights: once per weight
        innOk(s) == /\ Len(s) = Cardinality(V)
                    /\ {p[1] : p \in Range(s)} = V
                    /\ \A i \in DOMAIN s : /\ Len(s[i][2]) = Cardinality(inm[s[i][1]])
                                           /\ Range(s[i][2]) = {p[1] : p \in inm[s[i][1]]}
        lowest(e) == MinOf({p[2] : p \in {q \in inm[e[2]] : q[1] = e[1]}}, 0)
    IN  /\ Basic(r, und, Cardinality(ArcsAt(o, 1)), us)
        /\ Adjacency(r, und, us)
        /\ IsMap(r.degs, V, deg)
        /\ r.depth = o.depth
        /\ Len(r.arcs) = Cardinality(o.arcs) /\ Range(r.arcs) = P
        /\ Len(r.arcsat) = o.depth /\ \A d \in D : Lists(r.arcsat[d], Plain(at[d]))
        /\ r.ms = [d \in 1..(o.depth + 2) |-> IF d <= o.depth THEN Cardinality(at[d]) ELSE 0]
        /\ Lists(r.has, {e \in UU : e \in P})
        /\ Lists(r.hasat, {a \in o.arcs : <<a[1], a[2]>> \in UU})
        /\ Lists(r.arcdepth, {<<e[1], e[2], lowest(e)>> : e \in {f \in UU : f \in P}})
        /\ IsMap(r.deg, V, deg) /\ IsMap(r.ind, V, ind) /\ IsMap(r.outd, V, outd)
        /\ IsMap(r.inds, V, ind) /\ IsMap(r.outds, V, outd)
        /\ innOk(r.inn) /\ innOk(r.nit) /\ innOk(r.inh)
        /\ Len(r.innat) = o.depth /\ Len(r.nitat) = o.depth
        /\ \A d \in D : LET nbr(v) == {p[1] : p \in {q \in inm[v] : q[2] = d}}
                        IN  IsSetMap(r.innat[d], V, nbr) /\ IsSetMap(r.nitat[d], V, nbr)
        \* with several weights for one pair any of them may be reported
        /\ Len(r.innw) = Cardinality(V) /\ {p[1] : p \in Range(r.innw)} = V
        /\ \A i \in DOMAIN r.innw :
             LET v == r.innw[i][1]
                 s == r.innw[i][2]
             IN  /\ Lists([j \in DOMAIN s |-> s[j][1]], {p[1] : p \in inm[v]})
                 /\ \A j \in DOMAIN s : s[j] \in inm[v]
        /\ IsGraphRec(r.und, und)
LayerView(o, d, us, r) ==
  LET A == ArcsAt(o, d)
      P == Plain(A)
      V == o.vs
      und == MkGraph(V, P)
      ind(v) == Cardinality({a \in A : a[2] = v})
      outd(v) == Cardinality({a \in A : a[1] = v})
      deg(v) == ind(v) + outd(v)
      at(v) == InAt(o, v, d)
  IN  /\ Basic(r, und, Cardinality(A), us)
      /\ Adjacency(r, und, us)
      /\ IsMap(r.degs, V, deg)
      /\ Lists(r.has, {e \in Range(us) \X Range(us) : e \in P})
      /\ IsMap(r.deg, V, deg) /\ IsMap(r.ind, V, ind) /\ IsMap(r.outd, V, outd)
      /\ IsSetMap(r.inn, V, at)
\* looking at a layer, also one beyond the depth (where there are no arcs), changes nothing
Layer(h, d, us, res) ==
  /\ Kind(h) = "dtf"
  /\ Sure(LayerView(Obj(h), d, us, res))
  /\ Keep
LayerNew(h, d, us, res) ==
  /\ Kind(h) = "dtf"
  /\ d <= Obj(h).depth
  /\ Sure(LayerView(Obj(h), d, us, res))
  /\ Keep
EdgeSubgraph(h, es, to, res) ==
  /\ Kind(h) = "dtf"
  /\ LET o == Obj(h)
         E == Range(es) \cup {<<e[2], e[1]>> : e \in Range(es)}
         A == Plain(o.arcs) \cap E
         n == Dtf(o.vs, {<<a[1], a[2], 1>> : a \in A}, 1, FALSE, EmptyGraph)
     IN  /\ DtfRecOk(res)
         /\ DtfRec(res) = n
         /\ Put(to, n)
DtfUndirected(h, to, res) ==
  /\ Kind(h) = "dtf"
  /\ IsGraphRec(res, DtfUnd(Obj(h)))
  /\ Put(to, Ug(DtfUnd(Obj(h))))
DtfDomset(h, r, res) ==
  /\ Kind(h) = "dtf"
  /\ Obj(h).hasbase
  /\ DtfRecOk(res.st)
  /\ LET o == Obj(h)
         n == [DtfRec(res.st) EXCEPT !.hasbase = TRUE, !.base = o.base]
     IN  /\ Grows(o, n, r)
         /\ Sure(ExactOracle(n))
         /\ Distinct(res.set)
         /\ Range(res.set) \subseteq o.vs
         /\ Ball(o.base, Range(res.set), r) = o.vs
         /\ Put(h, n)
DtfInNbhd(h, us, res) ==
  /\ Kind(h) = "dtf"
  /\ Lists(res, {a[1] : a \in {b \in Obj(h).arcs : b[2] \in Range(us)}} \ Range(us))
  /\ Keep

---------------------------------------------------------------------------
(* All query records *)
Observe(h, us, res) ==
  /\ Sure(CASE Kind(h) = "ug" -> ObsUg(G(h), us, res)
       [] Kind(h) = "dg" -> ObsDg(G(h), us, res)
       [] Kind(h) = "ord" -> ObsOrd(Obj(h), us, res)
       [] Kind(h) = "deg" -> ObsDeg(Obj(h), us, res)
       [] Kind(h) = "reach" -> ObsReach(Obj(h), us, res)
       [] Kind(h) = "dtf" -> ObsDtf(Obj(h), us, res))
  /\ Keep
\* C08: only the iterators
Iterate(h, res) ==
  /\ Sure(IF Kind(h) = "dg" THEN IteratedDg(res, G(h)) ELSE Iterated(res, G(h)))
  /\ Keep

\* the elements of an iterator; neighbourhoods with their sizes
Elements(h, it) ==
  LET o == Obj(h)
      sized(D, F(_)) == {<<v, Cardinality(F(v))>> : v \in D}
  IN  CASE it = "verts" -> {<<v>> : v \in (IF o.k = "dtf" THEN o.vs ELSE DOMAIN o.g)}
        [] it = "nbs" -> sized(DOMAIN o.g, LAMBDA v : o.g[v])
        [] it = "edges" -> Edges(o.g)
        [] it = "mixed" -> {<<v>> : v \in DOMAIN o.g} \cup Edges(o.g)
        [] it = "arcs" -> Arcs(o.g)
        [] it = "dtfarcs" -> Plain(o.arcs)
        [] it = "ins" /\ o.k = "dg" -> sized(DOMAIN o.g, LAMBDA v : InN(o.g, v))
        [] it = "ins" /\ o.k = "dtf" -> sized(o.vs, LAMBDA v : {a \in o.arcs : a[2] = v})
        [] it = "outs" -> sized(DOMAIN o.g, LAMBDA v : o.g[v])
        [] it \in {"left", "walk"} /\ o.k \in {"ord", "deg"} -> sized(DOMAIN o.g, LAMBDA v : {u \in o.g[v] : o.pos[u] < o.pos[v]})
        [] it = "left" /\ o.k = "reach" -> sized(DOMAIN o.g, LAMBDA v : {u \in o.g[v] : o.pos[u] < o.pos[v]})
        [] it = "walk" /\ o.k = "reach" -> sized(DOMAIN o.g, LAMBDA v : o.sets[v])
\* An iterator yields the same elements no matter how it is consumed: in two parts, skipping every other element, in
\* turn with a second iterator, or only counted; its size hints are true, and it has nothing more to offer after its end.
IterModesOk(T, k, r) ==
  \E S \in {T} :
    LET n == Cardinality(S)
        bounds(hint, m) == hint[1] <= m /\ (hint[2] = -1 \/ m <= hint[2])
    IN  /\ Lists(r.first \o r.rest, S) /\ Len(r.first) = Min(k, n)
        /\ r.over = 0
        /\ r.count = n
        /\ Len(r.last) = Min(n, 1) /\ Range(r.last) \subseteq S
        /\ Len(r.every) = n \div 2 /\ Distinct(r.every) /\ Range(r.every) \subseteq S
        /\ Lists(r.a, S) /\ Lists(r.b, S)
        \* begun one element at a time, then finished by counting, by asking for the last element, by folding; or begun by a jump
        /\ Len(r.counted) = Min(k, n) /\ r.rcount = n - Min(k, n)
        /\ Len(r.lasted) = Min(k, n) /\ Len(r.rlast) = Min(n - Min(k, n), 1) /\ Distinct(r.lasted \o r.rlast) /\ Range(r.lasted \o r.rlast) \subseteq S
        /\ Lists(r.folded \o r.rfold, S)
        /\ Len(r.nth) = (IF k < n THEN 1 ELSE 0) /\ Len(r.after) = Max(n - k - 1, 0)
        /\ Distinct(r.nth \o r.after) /\ Range(r.nth \o r.after) \subseteq S
        /\ bounds(r.hint, n) /\ bounds(r.hint2, n - Len(r.first))
IterModes(h, it, k, r) == Sure(IterModesOk(Elements(h, it), k, r)) /\ Keep

(* C07: neighbourhoods and induced subgraphs *)
Nbhd(h, us, res) == Listable(h) /\ Lists(res, OpenNbhd(UG(h), Range(us))) /\ Keep
CNbhd(h, us, res) == Listable(h) /\ Lists(res, ClosedNbhd(UG(h), Range(us))) /\ Keep
RNbhd(h, us, r, res) == Listable(h) /\ Lists(res, Ball(UG(h), Range(us), r)) /\ Keep
RNb(h, u, r, res) == Listable(h) /\ Lists(res, Ball(UG(h), {u}, r)) /\ Keep
InNbhd(h, us, res) == Kind(h) = "dg" /\ Lists(res, OpenNbhd(Transpose(G(h)), Range(us))) /\ Keep
OutNbhd(h, us, res) == Kind(h) = "dg" /\ Lists(res, OpenNbhd(G(h), Range(us))) /\ Keep
Subgraph(h, us, to, res) ==
  /\ Listable(h)
  /\ LET s == Induced(UG(h), Range(us))
     IN  IsGraphRec(res, s) /\ Put(to, Ug(s))
\* collecting the edge list: isolated vertices are lost
FromEdges(h, to, res) ==
  /\ Listable(h)
  /\ LET g == UG(h)
         s == Induced(g, DOMAIN g \ Isolates(g))
     IN  IsGraphRec(res, s) /\ Put(to, Ug(s))

(* C09: operations *)
SetUg(to, g, res) == IsGraphRec(res, g) /\ Put(to, Ug(g))
Invert(h, to, res) ==
  /\ Listable(h)
  /\ LET g == UG(h)
         c == TLCEval([v \in DOMAIN g |-> (DOMAIN g \ g[v]) \ {v}])
     IN  SetUg(to, c, res)
Merge(h, g, to, res) ==
  /\ Listable(h) /\ Kind(h) = Kind(g)
  /\ SetUg(to, GUnion(UG(h), UG(g)), res)
Intersect(h, g, to, res) ==
  /\ Listable(h) /\ Kind(h) = Kind(g)
  /\ LET a == UG(h)
         b == UG(g)
     IN  SetUg(to, TLCEval([v \in DOMAIN a \cap DOMAIN b |-> a[v] \cap b[v]]), res)
Subdivide(h, t, to, res) ==
  /\ Undirected(h)
  /\ LoopFree(G(h))
  /\ Distinct(res.vs) /\ Distinct(res.es) /\ Sure(\A e \in Range(res.es) : {e[1], e[2]} \subseteq Range(res.vs))
  /\ LET s == RecGraph(res)
     IN  /\ IsGraphRec(res, s)
         /\ Sure(IsSubdivision(s, G(h), t))
         /\ Put(to, Ug(s))
Product(h, g, to, res, N(_, _, _)) ==
  /\ Undirected(h) /\ Kind(h) = Kind(g)
  /\ \E a \in {G(h)}, b \in {G(g)}, T \in {Range(res.map)} :
       LET n == Cardinality(DOMAIN a) * Cardinality(DOMAIN b)
       IN  /\ Len(res.map) = n
           /\ {t[1] : t \in T} = 0..(n - 1)
           /\ {<<t[2], t[3]>> : t \in T} = (DOMAIN a) \X (DOMAIN b)
           /\ \E idx \in {TLCEval([p \in (DOMAIN a) \X (DOMAIN b) |-> (CHOOSE t \in T : t[2] = p[1] /\ t[3] = p[2])[1]])} :
              \* rows: the neighbours of every product vertex
              \E s \in {TLCEval([i \in 0..(n - 1) |->
                        LET t == CHOOSE t \in T : t[1] = i IN {idx[q] : q \in N(a, b, <<t[2], t[3]>>)}])} :
                /\ IsGraphRec(res.g, s)
                /\ IF to = "" THEN Keep ELSE Put(to, Ug(s))
Cartesian(h, g, to, res) == Product(h, g, to, res, CartNbrs)
Lexicographic(h, g, to, res) == Product(h, g, to, res, LexiNbrs)

(* C10 *)
Compare(h, g, res) ==
  /\ Listable(h) /\ Kind(h) = Kind(g)
  /\ LET a == UG(h)
         b == UG(g)
     IN  res = IF a = b THEN "eq" ELSE IF IsSubgraph(a, b) THEN "sub" ELSE IF IsSubgraph(b, a) THEN "super" ELSE "incomparable"
  /\ Keep

(* C11 - C13 *)
ComponentsOf(h, res) ==
  /\ Listable(h)
  /\ Sure(\A i \in DOMAIN res : Distinct(res[i]))
  /\ Lists([i \in DOMAIN res |-> Range(res[i])], Components(UG(h)))
  /\ Keep
Bipartite(h, res) ==
  /\ Listable(h)
  /\ LET g == UG(h)
     IN  Sure(IF res.bip
              THEN Distinct(res.a) /\ Distinct(res.b) /\ IsBipartition(g, Range(res.a), Range(res.b))
              ELSE IsOddCycle(g, res.a))
  /\ Keep
BackDegree(g, pos, v) == Cardinality({u \in g[v] : pos[u] < pos[v]})
\* limit: up to here the result is exact
ExactLimit == 128
DegeneracyOk(gr, res) ==
  /\ Distinct(res.ord)
  /\ \E g \in {gr} : \E cores \in {CoreMap(g)}, pos \in {PosOf(res.ord)} :
     \E d \in {MaxOf({cores[v] : v \in DOMAIN g}, 0)} :
       LET core(v) == cores[v]
       IN  /\ res.lo <= d /\ d <= res.up
           /\ Lists(res.ord, DOMAIN g)
           /\ \A v \in DOMAIN g : BackDegree(g, pos, v) <= res.up
           /\ d <= ExactLimit => res.lo = d /\ res.up = d /\ IsMap(res.core, DOMAIN g, core)
DegeneracyOf(h, res) == Undirected(h) /\ Sure(DegeneracyOk(G(h), res)) /\ Keep

---------------------------------------------------------------------------
(* C14, C15, C17, C29: ordered representations *)
OrdWith(h, us, to, res) ==
  /\ Listable(h) /\ Kind(h) # "dg"
  /\ LoopFree(G(h))
  /\ Lists(us, DOMAIN G(h))
  /\ res = TRUE
  /\ Put(to, Ord(G(h), us))
DegWith(h, us, to, res) ==
  /\ Undirected(h)
  /\ LoopFree(G(h))
  /\ Lists(us, DOMAIN G(h))
  /\ res = TRUE
  /\ Put(to, Deg(G(h), us))
\* the order is the library's choice: its left degrees are bounded by the degeneracy
ByDegeneracy(gr, ord) ==
  \E g \in {gr} :
    /\ Lists(ord, DOMAIN g)
    /\ \E d \in {Degeneracy(g)}, pos \in {PosOf(ord)} :
         d <= ExactLimit => \A v \in DOMAIN g : BackDegree(g, pos, v) <= d
OrdByDeg(h, to, res) ==
  /\ Undirected(h)
  /\ Sure(ByDegeneracy(G(h), res))
  /\ Put(to, Ord(G(h), res))
DegByDeg(h, to, res) ==
  /\ Undirected(h)
  /\ Sure(ByDegeneracy(G(h), res))
  /\ Put(to, Deg(G(h), res))
ToDeg(h, to, res) ==
  /\ Kind(h) = "ord"
  /\ res = TRUE
  /\ Put(to, Deg(G(h), Obj(h).ord))
StrongSets(o, r) == TLCEval([u \in DOMAIN o.g |-> SReach(o, u, r)])
ToReach(h, r, weak, to, res) ==
  /\ Kind(h) = "ord"
  /\ res = TRUE
  /\ LET o == Obj(h)
     IN  Put(to, Reach(o.g, o.ord, r, weak, IF weak THEN WReachAll(o, r) ELSE StrongSets(o, r)))
\* the builders: any assignment of earlier vertices and distances
ReachBuild(us, r, sets, to, res) ==
  /\ Distinct(us) /\ Len(sets) = Len(us)
  /\ Sure(\A i \in DOMAIN sets : \A p \in Range(sets[i]) : p[1] \in Range(SubSeq(us, 1, i - 1)) /\ p[2] \in 1..r)
  /\ res = TRUE
  /\ LET pos == PosOf(us)
         E == UNION {{<<us[i], p[1]>> : p \in {q \in Range(sets[i]) : q[2] = 1}} : i \in DOMAIN us}
     IN  Put(to, Reach(MkGraph(Range(us), E), us, r, FALSE, [v \in Range(us) |-> Range(sets[pos[v]])]))
DegBuild(us, sets, to, res) ==
  /\ Distinct(us) /\ Len(sets) = Len(us)
  /\ Sure(\A i \in DOMAIN sets : Distinct(sets[i]) /\ Range(sets[i]) \subseteq Range(SubSeq(us, 1, i - 1)))
  /\ res = TRUE
  /\ Put(to, Deg(MkGraph(Range(us), UNION {{<<us[i], v>> : v \in Range(sets[i])} : i \in DOMAIN us}), us))
Swap(h, u, v, res) ==
  /\ Kind(h) = "ord"
  /\ res = TRUE
  /\ LET o == Obj(h)
     IN  IF {u, v} \subseteq DOMAIN o.g
         THEN LET s == SwapSeq(o.ord, o.pos[u], o.pos[v])
              IN  Put(h, [o EXCEPT !.ord = s, !.pos = [@ EXCEPT ![u] = o.pos[v], ![v] = o.pos[u]]])
         ELSE Keep
\* in place: every vertex is renamed to its position
NormalizeDeg(h, res) ==
  /\ Kind(h) = "deg"
  /\ LET o == Obj(h)
         n == Len(o.ord)
         f == TLCEval([v \in DOMAIN o.g |-> o.pos[v] - 1])
     IN  /\ Lists(res, {<<i - 1, o.ord[i]>> : i \in 1..n})
         /\ Put(h, Deg(GRename(o.g, f), [i \in 1..n |-> i - 1]))
Leftmost(h, us, res) ==
  /\ Linear(h)
  /\ IF us = <<>> THEN res = <<>>
     ELSE res = <<Obj(h).ord[MinOf({Obj(h).pos[u] : u \in Range(us)}, 0)]>>
  /\ Keep
Rightmost(h, us, res) ==
  /\ Linear(h)
  /\ IF us = <<>> THEN res = <<>>
     ELSE res = <<Obj(h).ord[MaxOf({Obj(h).pos[u] : u \in Range(us)}, 0)]>>
  /\ Keep

(* C16: reachability *)
LinNb(h) == Kind(h) \in {"ord", "deg"}
RightBfs(h, u, r, res) ==
  /\ LinNb(h)
  /\ LET L == RightLayers(Obj(h), u, r)
         ok(i) == Distinct(res[i]) /\ Range(res[i]) = (IF i <= Len(L) THEN L[i] ELSE {})
     \* empty layers at the end may be left out
     IN  /\ Len(res) <= r + 1
         /\ Len(res) >= Len(L)
         /\ Sure(\A i \in DOMAIN res : ok(i))
  /\ Keep
SReachSet(h, u, r, res) == LinNb(h) /\ Lists(res, SReach(Obj(h), u, r)) /\ Keep
AllSets(o, res, sets) ==
  /\ Len(res) = Cardinality(DOMAIN o.g)
  /\ {p[1] : p \in Range(res)} = DOMAIN o.g
  /\ \A i \in DOMAIN res : Lists(res[i][2], sets[res[i][1]])
AllSizes(o, res, sets) == Lists(res, {<<u, Cardinality(sets[u])>> : u \in DOMAIN o.g})
SReachSets(h, r, res) == LinNb(h) /\ Sure(AllSets(Obj(h), res, StrongSets(Obj(h), r))) /\ Keep
SReachSizes(h, r, res) == LinNb(h) /\ AllSizes(Obj(h), res, StrongSets(Obj(h), r)) /\ Keep
WReachSets(h, r, res) == LinNb(h) /\ Sure(AllSets(Obj(h), res, WReachAll(Obj(h), r))) /\ Keep
WReachSizes(h, r, res) == LinNb(h) /\ AllSizes(Obj(h), res, WReachAll(Obj(h), r)) /\ Keep

(* C18, C19 *)
CountCliques(h, res) == Linear(h) /\ res = NumMaxCliques(G(h)) /\ Keep
GreedyColour(h, res) ==
  /\ Linear(h)
  /\ LET o == Obj(h)
         col == TLCEval([v \in {p[1] : p \in Range(res)} |-> (CHOOSE p \in Range(res) : p[1] = v)[2]])
     IN  /\ Len(res) = Cardinality(DOMAIN o.g)
         /\ Sure(IsGreedy(o, col))
  /\ Keep

(* C20, C21.  T = the target *)
SameColourFar(g, C, far) ==  \* C: set of pairs (vertex, colour)
  \A p \in C : \E B \in {Ball(g, {p[1]}, far - 1)} :
                 \A q \in C : q[1] # p[1] /\ q[2] = p[2] => q[1] \notin B
Dominates(lin, target, r, wit, res) ==
  \E g \in {lin.g}, T \in {target}, D \in {Range(res.set)} : \E L \in {Layers(g, D, r)} :
  \E dist \in {[v \in DOMAIN g |-> LET I == {i \in DOMAIN L : v \in L[i]} IN IF I = {} THEN r + 1 ELSE (CHOOSE i \in I : TRUE) - 1]} :
      /\ Distinct(res.set)
      /\ D \subseteq DOMAIN g
      /\ Distinct([i \in DOMAIN res.dist |-> res.dist[i][1]])
      /\ T \subseteq {p[1] : p \in Range(res.dist)}
      /\ \A p \in Range(res.dist) : p[1] \in T => dist[p[1]] <= p[2] /\ p[2] <= r
      /\ \A p \in Range(res.dist) : p[1] \in D => p[2] = 0
      /\ T = {} => D = {}
      /\ res.haswit = wit
      /\ ~wit => res.col = <<>>
      /\ wit =>
           \E C \in {Range(res.col)} : \E W \in {{p[1] : p \in C}} :
               /\ Len(res.col) = Cardinality(W)
               /\ W \subseteq D /\ W \subseteq T
               /\ (T # {}) => (W # {})
               /\ SameColourFar(g, C, 2 * r + 1)
\* The result does not depend on asking for the witness: the last domination
\* result is remembered, and the same question must get the same answer.
LastDom == "#dom"
SameAnswer(d, o, T, r, res) ==
  d.o = o /\ d.T = T /\ d.r = r =>
    /\ Range(res.set) = Range(d.res.set)
    /\ {p \in Range(res.dist) : p[1] \in T} = {p \in Range(d.res.dist) : p[1] \in T}
Domset(h, T, r, wit, res) ==
  /\ LinNb(h)
  /\ T \subseteq DOMAIN G(h)
  /\ Sure(Dominates(Obj(h), T, r, wit, res))
  /\ Has(LastDom) => SameAnswer(Obj(LastDom), Obj(h), T, r, res)
  /\ Put(LastDom, [k |-> "dom", o |-> Obj(h), T |-> T, r |-> r, res |-> res])
Scattered(h, us, d, res) ==
  /\ LinNb(h)
  /\ LET g == G(h)
         T == Range(us)
     IN  Sure(/\ \A i \in DOMAIN res : res[i] # <<>> /\ Distinct(res[i])
              /\ SumSeq([i \in DOMAIN res |-> Len(res[i])]) = Cardinality(T)
              /\ UNION {Range(res[i]) : i \in DOMAIN res} = T
              /\ \A i \in DOMAIN res : d >= 1 =>
                   \A u \in Range(res[i]) : Ball(g, {u}, d - 1) \cap Range(res[i]) = {u})
  /\ Keep

---------------------------------------------------------------------------
(* C25: trace oracle *)
Oracle(h, to, res) ==
  /\ Kind(h) = "deg"
  /\ res = TRUE
  /\ Put(to, [k |-> "orc", of |-> Obj(h)])
Sorted(o, us) == \A i \in 1..(Len(us) - 1) : o.pos[us[i]] < o.pos[us[i + 1]]
Traces(h, us, res) ==
  /\ Kind(h) = "orc"
  /\ LET o == Obj(h).of
         X == Range(us)
         pos == SelectSeq(res, LAMBDA p : p[2] # 0)
     IN  Sure(/\ \A i \in DOMAIN res : res[i][2] >= 0 /\ Distinct(res[i][1]) /\ Range(res[i][1]) \subseteq X
              /\ Distinct([i \in DOMAIN res |-> Range(res[i][1])])
              /\ {Range(pos[i][1]) : i \in DOMAIN pos} = TraceSets(o.g, X)
              /\ \A i \in DOMAIN pos : pos[i][2] = TraceCount(o.g, X, Range(pos[i][1])))
  /\ Keep
NeighbourCount(h, us, res) ==
  /\ Kind(h) = "orc"
  /\ LET o == Obj(h).of IN res = Cardinality(OpenNbhd(o.g, Range(us)))
  /\ Keep
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Shattered(h, us, kk, res) ==
  /\ Kind(h) = "orc"
  /\ LET o == Obj(h).of
         X == Range(us)
         d == kk - Cardinality(X)
     \* no trace occurs 2^31 times: no graph has as many vertices
     IN  res = (d <= 30 /\ \A S \in SUBSET X : TraceCount(o.g, X, S) >= Pow2(d))
  /\ Keep

---------------------------------------------------------------------------
(* C28: colourings and maps *)
Col(m) == [k |-> "col", m |-> m]
Pairs(m) == {<<v, m[v]>> : v \in DOMAIN m}
\* the last pair with key v wins
FromPairs(ps) == TLCEval([v \in {ps[i][1] : i \in DOMAIN ps} |-> ps[MaxOf({i \in DOMAIN ps : ps[i][1] = v}, 0)][2]])
ColNew(h, ps, res) == res = TRUE /\ Put(h, Col(FromPairs(ps)))
ColDefault(h, res) == res = TRUE /\ Put(h, Col(EmptyGraph))
ColSets(h, sets, res) ==
  /\ res = TRUE
  /\ LET V == UNION {Range(sets[i]) : i \in DOMAIN sets}
     IN  Put(h, Col(TLCEval([v \in V |-> MaxOf({i \in DOMAIN sets : v \in Range(sets[i])}, 1) - 1])))
ColInsert(h, u, c, res) ==
  /\ Kind(h) = "col"
  /\ LET m == Obj(h).m
     IN  /\ res = IF u \in DOMAIN m THEN <<m[u]>> ELSE <<>>
         /\ Put(h, Col((u :> c) @@ m))
\* only the relation between old and new colours is promised
ColExtend(h, g, res) ==
  /\ Kind(h) = "col" /\ Kind(g) = "col"
  /\ \E a \in {Obj(h).m}, b \in {Obj(g).m}, keys \in {{p[1] : p \in Range(res)}} :
       /\ Len(res) = Cardinality(keys)
       /\ keys = DOMAIN a \cup DOMAIN b
       /\ \E n \in {FromPairs(res)}, new \in {DOMAIN b \ DOMAIN a} :
            /\ Sure(\A v \in DOMAIN a : n[v] = a[v])
            /\ Sure(\E old \in {{a[u] : u \in DOMAIN a}} : \A v \in new : n[v] \notin old)
            /\ Sure(\A v, u \in new : (n[v] = n[u]) = (b[v] = b[u]))
            /\ Put(h, Col(n))
ColSubset(h, us, to, res) ==
  /\ Kind(h) = "col"
  /\ LET m == Obj(h).m
         s == TLCEval([v \in DOMAIN m \cap Range(us) |-> m[v]])
     IN  Lists(res, Pairs(s)) /\ Put(to, Col(s))
ColEq(h, g, res) == Kind(h) = "col" /\ Kind(g) = "col" /\ res = (Obj(h).m = Obj(g).m) /\ Keep
ColView(map, us, r) ==
     \E m \in {map} : \E C \in {{m[v] : v \in DOMAIN m}}, P \in {Pairs(m)} :
     \E classes \in {[c \in C |-> {v \in DOMAIN m : m[v] = c}]} :
       LET class(c) == classes[c]
           opt(v) == IF v \in DOMAIN m THEN <<m[v]>> ELSE <<>>
           inv(s) == IsSetMap(s, C, class)
           maj(s) == IF DOMAIN m = {} THEN s = <<>>
                     ELSE /\ Len(s) = 2 /\ s[1] \in C /\ Lists(s[2], class(s[1]))
                          /\ \A c \in C : Cardinality(class(c)) <= Len(s[2])
       IN  /\ r.len = Cardinality(DOMAIN m)
           /\ Lists(r.iter, P) /\ Lists(r.asmap, P)
           /\ Lists(r.vs, DOMAIN m)
           /\ Lists(r.cols, C)
           /\ Lists(r.con, Range(us) \cap DOMAIN m)
           /\ OnMap(r.get, us, opt)
           /\ Lists(r.ix, {p \in P : p[1] \in Range(us)})
           /\ inv(r.inv) /\ inv(r.minv)
           /\ maj(r.maj) /\ maj(r.mmaj)
ColObs(h, us, r) == Kind(h) = "col" /\ Sure(ColView(Obj(h).m, us, r)) /\ Keep
\* mixed elements: <<v>> a vertex, <<u, v>> an edge
Mixed(a, b, r) ==
  /\ r.eq = (a = b)
  /\ r.isv = (Len(a) = 1) /\ r.ise = (Len(a) = 2)
  /\ r.asv = (IF Len(a) = 1 THEN a ELSE <<>>)
  /\ r.ase = (IF Len(a) = 2 THEN <<a>> ELSE <<>>)
  /\ LET common == Range(a) \cap Range(b)
     IN  /\ r.ints = (common # {})
         /\ IF common = {} THEN r.inter = <<>>
            ELSE IF Len(a) = 2 /\ Len(b) = 2 /\ Range(a) = Range(b)
                 THEN Len(r.inter) = 2 /\ Range(r.inter) = common
                 ELSE Len(r.inter) = 1 /\ r.inter[1] \in common
  /\ Keep

---------------------------------------------------------------------------
(* C26, C27: files.  A file's content is kept in the store under its name. *)
PutSet(h, us, res) == res = TRUE /\ Put(h, [k |-> "set", s |-> Range(us)])
PutSeq(h, us, res) == res = TRUE /\ Put(h, [k |-> "seq", s |-> us])
\* what a reader finds: the edges, the set or the sequence
IoWrite(h, file, gz, res) ==
  /\ res = TRUE
  /\ Put(file, [k |-> "file", gz |-> gz, of |-> IF Listable(h) THEN Ug(Induced(UG(h), DOMAIN UG(h) \ Isolates(UG(h)))) ELSE Obj(h)])
\* number of bytes of a text file; the ids are the vertices of the store themselves
RECURSIVE NumDigits(_)
NumDigits(x) == IF x < 10 THEN 1 ELSE 1 + NumDigits(x \div 10)
TextSize(h) ==
  CASE Kind(h) = "set" -> MapThenSumSet(LAMBDA x : NumDigits(x) + 1, Obj(h).s)
    [] Kind(h) = "seq" -> MapThenSumSet(LAMBDA i : NumDigits(Obj(h).s[i]) + 1, DOMAIN Obj(h).s)
    [] OTHER -> MapThenSumSet(LAMBDA e : NumDigits(e[1]) + NumDigits(e[2]) + 2, Edges(UG(h)))
\* Writing to a medium with room for res.cap bytes.  A reported success means that everything is there, and a failure is
\* reported only if the file does not fit; after a failure the content of the file is not known.
\* Compressed files may differ in a few bytes from one run to the next.
IoWriteFault(h, file, via, plain, res) ==
  LET gz == via = "gz"
  IN  /\ res.whole = TRUE
      /\ plain /\ ~gz => res.full = TextSize(h)
      /\ res.ok \in BOOLEAN
      /\ IF gz THEN res.ok = FALSE => res.cap < res.full + 64
         ELSE res.ok = (res.cap >= res.full)
      /\ res.ok /\ ~gz => res.size = res.full
      /\ Put(file, IF res.ok THEN [k |-> "file", gz |-> gz, of |-> IF Listable(h) THEN Ug(Induced(UG(h), DOMAIN UG(h) \ Isolates(UG(h)))) ELSE Obj(h)]
                   ELSE [k |-> "partial"])
\* what is left of a failed write may be anything
IoReadBack(file, via, k, to, res) ==
  /\ Kind(file) = "partial"
  /\ res.ok \in BOOLEAN
  /\ Keep
\* a directory, or a path in a directory that does not exist
IoNowhere(h, res) ==
  /\ Listable(h) \/ Kind(h) \in {"set", "seq"}
  /\ res.w = <<FALSE, FALSE>>
  /\ res.ug = <<FALSE, FALSE, FALSE>> /\ res.set = <<FALSE, FALSE, FALSE>> /\ res.seq = <<FALSE, FALSE, FALSE>>
  /\ Keep
IoRead(file, via, k, to, res) ==
  /\ Kind(file) = "file"
  /\ via = "file" \/ (via = "gz") = Obj(file).gz
  /\ LET of == Obj(file).of
     IN  /\ k = of.k
         /\ res.ok = TRUE
         /\ CASE k = "ug" -> IsGraphRec(res.g, of.g)
              [] k = "set" -> Lists(res.vs, of.s)
              [] k = "seq" -> res.vs = of.s
         /\ Put(to, of)
IdsOf(E) == UNION {{e[1], e[2]} : e \in E}
\* the bytes hold the given content
Content(k, bytes, r) ==
  LET p == IF k = "ug" THEN ParseGraph(bytes) ELSE ParseIds(bytes)
      S == Range(p.val)
  IN  /\ r.ok = p.ok
      /\ p.ok => CASE k = "ug" -> /\ Lists(r.es, S)
                                  /\ Lists(r.vs, IdsOf(S))
                                  /\ r.n = Len(r.vs) /\ r.m = Len(r.es)
                   [] k = "set" -> Lists(r.vs, S)
                   [] k = "seq" -> r.vs = p.val
\* e: the recorded call
IoParse(e) ==
  LET gzvia == e.via = "gz" \/ (e.via = "file" /\ e.ext = "gz")
      txtvia == e.via \in {"txt", "buf"} \/ (e.via = "file" /\ e.ext = "txt")
  IN  /\ IF "fault" \in DOMAIN e /\ "at" \in DOMAIN e.fault THEN e.res.ok = FALSE       \* the medium fails before its end
         ELSE IF e.miss /\ e.via # "buf" THEN e.res.ok = FALSE
         ELSE IF ~gzvia /\ ~txtvia THEN e.res.ok = FALSE                  \* unsupported extension
         ELSE IF gzvia /\ e.wrap = "plain" THEN e.res.ok = FALSE          \* not compressed data
         ELSE IF gzvia /\ e.dmg \in {"trunc", "tail"} THEN e.res.ok = FALSE
         ELSE IF gzvia /\ e.dmg = "flip" THEN (e.res.ok = FALSE \/ Content(e.k, e.bytes, e.res))  \* padding bits carry no data
         ELSE Content(e.k, e.bytes, e.res)
      /\ Keep
=============================================================================
