------------------------------- MODULE MCOps --------------------------------
(***************************************************************************)
(* The graph operations as they are built (C09): complement and products    *)
(* pair by pair, subdivision edge by edge with a running fresh number,      *)
(* union and intersection link by link; and the algebraic laws between      *)
(* them.                                                                    *)
(***************************************************************************)
EXTENDS MCBase, Operations
CONSTANT Times
VARIABLES task, g, h, t, todo, res, free
vars == <<task, g, h, t, todo, res, free>>
Pairs(a, b) == (DOMAIN a) \X (DOMAIN b)
\* the number of a pair, as the enumeration of both vertex sets in any fixed order gives it
Idx(p) == RankIn(DOMAIN g, p[1]) * Cardinality(DOMAIN h) + RankIn(DOMAIN h, p[2])
Partners == {MkGraph({0, 1}, {<<0, 1>>}), MkGraph({1, 2, 4}, {<<1, 2>>, <<4, 4>>}), EmptyGraph, MkGraph({3}, {})}
Init ==
  /\ task \in {"complement", "merge", "intersect", "subdivide", "cartesian", "lexicographic"}
  /\ \E U \in {AllSubGraphs(V)} : g \in U
  /\ h \in Partners
  /\ t \in Times
  /\ task = "subdivide" => LoopFree(g)
  /\ task # "subdivide" => t = 0
  /\ task \in {"complement", "subdivide"} => h = EmptyGraph
  /\ free = MaxOf(DOMAIN g, 0) + 1
  /\ CASE task = "complement" -> todo = {e \in (DOMAIN g) \X (DOMAIN g) : e[1] < e[2]} /\ res = GAddVertices(EmptyGraph, DOMAIN g)
       [] task = "merge" -> todo = Edges(g) \cup Edges(h) /\ res = GAddVertices(EmptyGraph, DOMAIN g \cup DOMAIN h)
       [] task = "intersect" -> todo = Edges(g) /\ res = GAddVertices(EmptyGraph, DOMAIN g \cap DOMAIN h)
       [] task = "subdivide" -> todo = Edges(g) /\ res = GAddVertices(EmptyGraph, DOMAIN g)
       [] OTHER -> todo = Pairs(g, h) /\ res = EmptyGraph
RECURSIVE Chain(_, _, _, _)
Chain(x, last, s, k) == IF k = 0 THEN <<x, last>> ELSE Chain(GAddEdge(x, last, s), s, s + 1, k - 1)
Step(e) ==
  CASE task = "complement" -> res' = (IF Adj(g, e[1], e[2]) THEN res ELSE GAddEdge(res, e[1], e[2])) /\ UNCHANGED free
    [] task = "merge" -> res' = GAddEdge(res, e[1], e[2]) /\ UNCHANGED free
    [] task = "intersect" -> res' = (IF Adj(h, e[1], e[2]) THEN GAddEdge(res, e[1], e[2]) ELSE res) /\ UNCHANGED free
    [] task = "subdivide" -> \E c \in {Chain(res, e[1], free, t)} : res' = GAddEdge(c[1], c[2], e[2]) /\ free' = free + t
    [] task = "cartesian" ->
         /\ res' = GAddEdges(GAddVertex(res, Idx(e)), {<<Idx(e), Idx(<<e[1], w>>)>> : w \in h[e[2]]} \cup {<<Idx(e), Idx(<<w, e[2]>>)>> : w \in g[e[1]]})
         /\ UNCHANGED free
    [] task = "lexicographic" ->
         /\ res' = GAddEdges(GAddVertex(res, Idx(e)), {<<Idx(e), Idx(<<w, e[2]>>)>> : w \in g[e[1]]}
                                \cup {<<Idx(e), Idx(<<u, w>>)>> : u \in DOMAIN g, w \in h[e[2]]})
         /\ UNCHANGED free
Next == \E e \in todo : Step(e) /\ todo' = todo \ {e} /\ UNCHANGED <<task, g, h, t>>
Spec == Init /\ [][Next]_vars
ProductIs(Nb(_, _, _)) == res = [i \in {Idx(p) : p \in Pairs(g, h)} |->
   LET p == CHOOSE p \in Pairs(g, h) : Idx(p) = i IN {Idx(q) : q \in Nb(g, h, p)}]
Compl(x) == [v \in DOMAIN x |-> (DOMAIN x \ x[v]) \ {v}]
Inter(x, y) == [v \in DOMAIN x \cap DOMAIN y |-> x[v] \cap y[v]]
Result == todo = {} =>
  CASE task = "complement" -> res = Compl(g)
    [] task = "merge" -> res = GUnion(g, h)
    [] task = "intersect" -> res = Inter(g, h)
    [] task = "subdivide" -> IsSubdivision(res, g, t)
    [] task = "cartesian" -> ProductIs(CartNbrs)
    [] task = "lexicographic" -> ProductIs(LexiNbrs)
\* laws
Laws == todo = {} =>
  CASE task = "complement" -> Compl(res) = GRemoveLoops(g) /\ NumEdges(res) + NumEdges(GRemoveLoops(g)) = Cardinality({e \in (DOMAIN g) \X (DOMAIN g) : e[1] < e[2]})
    [] task = "merge" -> GUnion(h, g) = res /\ IsSubgraph(g, res) /\ IsSubgraph(h, res) /\ GUnion(res, g) = res
    [] task = "intersect" -> Inter(h, g) = res /\ IsSubgraph(res, g) /\ IsSubgraph(res, h) /\ GUnion(res, g) = g
    [] task = "subdivide" -> NumEdges(res) = (t + 1) * NumEdges(g) /\ (t > 0 => \A a, b \in DOMAIN g :
           DistUpTo(res, a, b, 2 * t + 2) = (LET d == DistUpTo(g, a, b, 2) IN IF d = -1 THEN -1 ELSE d * (t + 1)))
    [] task = "cartesian" -> LoopFree(g) /\ LoopFree(h) =>
           NumEdges(res) = NumEdges(g) * Cardinality(DOMAIN h) + NumEdges(h) * Cardinality(DOMAIN g)
    [] task = "lexicographic" -> LoopFree(g) /\ LoopFree(h) =>
           NumEdges(res) = NumEdges(g) * Cardinality(DOMAIN h) + NumEdges(h) * Cardinality(DOMAIN g) * Cardinality(DOMAIN g)
=============================================================================
