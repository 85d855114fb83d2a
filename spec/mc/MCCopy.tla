------------------------------- MODULE MCCopy -------------------------------
(***************************************************************************)
(* Copies, relabellings and disjoint unions (C03, C06) built vertex by      *)
(* vertex and edge by edge in any order, and equality decided from the      *)
(* counters, the degree table and the adjacency table.                      *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Directed
VARIABLES g, task, res, vs, es, off
vars == <<g, task, res, vs, es, off>>
\* a second operand for unions
Other == IF Directed THEN MkDigraph({0, 2}, {<<2, 0>>, <<2, 2>>}) ELSE MkGraph({0, 2}, {<<0, 2>>, <<2, 2>>})
Links(x) == IF Directed THEN Arcs(x) ELSE Edges(x)
AddLink(x, u, v) == IF Directed THEN DAddArc(x, u, v) ELSE GAddEdge(x, u, v)
\* order of the vertex set: names -> ranks
Rank(x, v) == RankIn(DOMAIN x, v)
Universe == IF Directed THEN AllSubDigraphs(V) ELSE AllSubGraphs(V)
Init ==
  /\ \E U \in {Universe} : g \in U
  /\ task \in {"copy", "rename", "union"}
  /\ res = EmptyGraph
  /\ off = OffsetOf(g)
  /\ vs = (IF task = "union" THEN DOMAIN g \cup {v + off : v \in DOMAIN Other} ELSE DOMAIN g)
  /\ es = (IF task = "union" THEN Links(g) \cup {<<a[1] + off, a[2] + off>> : a \in Links(Other)} ELSE Links(g))
Name(v) == IF task = "rename" THEN Rank(g, v) ELSE v
Vtx == \E v \in vs : vs' = vs \ {v} /\ res' = GAddVertex(res, Name(v)) /\ UNCHANGED es
Lnk == \E e \in es : es' = es \ {e} /\ res' = AddLink(res, Name(e[1]), Name(e[2])) /\ UNCHANGED vs
Next == (Vtx \/ Lnk) /\ UNCHANGED <<g, task, off>>
Spec == Init /\ [][Next]_vars
Done == vs = {} /\ es = {}
Result == Done =>
  CASE task = "copy" -> res = g
    [] task = "rename" -> res = GRename(g, [v \in DOMAIN g |-> Rank(g, v)]) /\ DOMAIN res = 0..(Cardinality(DOMAIN g) - 1)
    [] task = "union" -> res = DisjUnion(g, Other)
\* the halves of a union are the operands
Halves == Done /\ task = "union" =>
  /\ Induced(res, DOMAIN g) = g
  /\ GShift(Induced(res, {v + off : v \in DOMAIN Other}), -off) = Other
  /\ \A u \in DOMAIN g : \A v \in {x + off : x \in DOMAIN Other} : v \notin res[u] /\ u \notin res[v]
\* equality from counters, degrees and tables is equality
Deg(x, v) == IF Directed THEN DDegree(x, v) ELSE Degree(x, v)
SameBy(x, z) ==
  /\ Cardinality(DOMAIN x) = Cardinality(DOMAIN z) /\ Cardinality(Links(x)) = Cardinality(Links(z))
  /\ [v \in DOMAIN x |-> Deg(x, v)] = [v \in DOMAIN z |-> Deg(z, v)]
  /\ [v \in DOMAIN x |-> x[v]] = [v \in DOMAIN z |-> z[v]]
Equality == SameBy(g, res) = (DOMAIN g = DOMAIN res /\ Links(g) = Links(res))
=============================================================================
