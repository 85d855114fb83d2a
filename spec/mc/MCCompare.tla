----------------------------- MODULE MCCompare ------------------------------
(***************************************************************************)
(* Subgraph comparison (C10) by scanning the vertices and edges of both     *)
(* sides, in any order: the two flags decide the relation, and the relation *)
(* behaves as a partial order that respects complement-free operations.     *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, h, vs, es, sub, sup
vars == <<g, h, vs, es, sub, sup>>
Init ==
  /\ \E U \in {AllSubGraphs(V)} : g \in U /\ h \in U
  /\ vs = {<<v, 1>> : v \in DOMAIN g} \cup {<<v, 2>> : v \in DOMAIN h}
  /\ es = {<<e, 1>> : e \in Edges(g)} \cup {<<e, 2>> : e \in Edges(h)}
  /\ sub = TRUE /\ sup = TRUE
SeeV == \E p \in {CHOOSE p \in vs : TRUE} : vs # {} /\ vs' = vs \ {p} /\ UNCHANGED es
  /\ IF p[2] = 1 THEN sub' = (sub /\ p[1] \in DOMAIN h) /\ UNCHANGED sup ELSE sup' = (sup /\ p[1] \in DOMAIN g) /\ UNCHANGED sub
SeeE == \E p \in {CHOOSE p \in es : TRUE} : es # {} /\ es' = es \ {p} /\ UNCHANGED vs
  /\ IF p[2] = 1 THEN sub' = (sub /\ Adj(h, p[1][1], p[1][2])) /\ UNCHANGED sup ELSE sup' = (sup /\ Adj(g, p[1][1], p[1][2])) /\ UNCHANGED sub
Next == ((vs # {} /\ SeeV) \/ (vs = {} /\ es # {} /\ SeeE)) /\ UNCHANGED <<g, h>>
Spec == Init /\ [][Next]_vars
Done == vs = {} /\ es = {}
Exact == Done => sub = IsSubgraph(g, h) /\ sup = IsSubgraph(h, g)
Antisymmetric == Done => (sub /\ sup) = (g = h)
Counts == Done /\ sub => Cardinality(DOMAIN g) <= Cardinality(DOMAIN h) /\ NumEdges(g) <= NumEdges(h)
Lattice == Done => IsSubgraph(g, GUnion(g, h)) /\ (sub = (GUnion(g, h) = h))
=============================================================================
