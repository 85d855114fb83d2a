------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* Small instances of the abstract state machine from which call sequences  *)
(* for the library are derived: TLC enumerates every reachable state and    *)
(* every operation possible in it and prints each transition; the check     *)
(* covers all of them by walks and replays the walks in the library.        *)
(*   ug / dg   one graph under all edits (and contractions)                 *)
(*   ug2 / dg2 two graphs under edits and copies in both directions         *)
(*   ord       ordered graphs under swaps, present and absent vertices      *)
(*   col       two colourings under inserts, extension and restriction      *)
(*   dtf       augmentations under arc and vertex insertion                 *)
(***************************************************************************)
EXTENDS MCBase, Augmentations, Json
CONSTANTS Kind, Ops
VARIABLE s
Dir == Kind \in {"dg", "dg2"}
Two == Kind \in {"ug2", "dg2"}
Pool == 0..N      \* N is never present at first in the ordered graphs
---------------------------------------------------------------------------
Edits(h) ==
  {[op |-> "add_vertex", h |-> h, u |-> u] : u \in V} \cup {[op |-> "remove_vertex", h |-> h, u |-> u] : u \in V}
  \cup {[op |-> "add_edge", h |-> h, u |-> u, v |-> v] : u \in V, v \in V}
  \cup {[op |-> "remove_edge", h |-> h, u |-> u, v |-> v] : u \in V, v \in V}
  \cup {[op |-> "remove_loops", h |-> h], [op |-> "remove_isolates", h |-> h]}
Bulks(h) ==
  {[op |-> "add_vertices", h |-> h, us |-> us] : us \in {<<0, 1>>, <<N - 1, N - 1>>, <<>>}}
  \cup {[op |-> "add_edges", h |-> h, es |-> es] : es \in {<<<<0, 1>>, <<1, 0>>>>, <<<<0, 1>>, <<1, N - 1>>, <<0, 1>>>>, <<<<0, 0>>, <<0, 0>>>>}}
Listed(S) == SelectSeq(Idy, LAMBDA v : v \in S)
Contractions(h, g) ==
  {[op |-> "contract_pair", h |-> h, u |-> e[1], v |-> e[2]] : e \in {p \in (DOMAIN g) \X (DOMAIN g) : p[1] # p[2]}}
  \cup {[op |-> "contract_into", h |-> h, u |-> c, us |-> Listed(S)] : c \in DOMAIN g, S \in SUBSET DOMAIN g}
  \cup {[op |-> "contract", h |-> h, us |-> Listed(S)] : S \in (SUBSET DOMAIN g) \ {{}}}
GraphOps(h, g) == (IF "edit" \in Ops THEN Edits(h) ELSE {}) \cup (IF "bulk" \in Ops THEN Bulks(h) ELSE {})
             \cup (IF "contract" \in Ops THEN Contractions(h, g) ELSE {})
OnGraph(g, a) ==
  CASE a.op = "add_vertex" -> GAddVertex(g, a.u)
    [] a.op = "remove_vertex" -> IF Dir THEN DRemoveVertices(g, {a.u}) ELSE GRemoveVertices(g, {a.u})
    [] a.op = "add_edge" -> IF Dir THEN DAddArc(g, a.u, a.v) ELSE GAddEdge(g, a.u, a.v)
    [] a.op = "remove_edge" -> IF Dir THEN DRemoveArc(g, a.u, a.v) ELSE GRemoveEdge(g, a.u, a.v)
    [] a.op = "remove_loops" -> GRemoveLoops(g)
    [] a.op = "remove_isolates" -> Induced(g, DOMAIN g \ (IF Dir THEN Isolates(Underlying(g)) ELSE Isolates(g)))
    [] a.op = "add_vertices" -> GAddVertices(g, Range(a.us))
    [] a.op = "add_edges" -> IF Dir THEN DAddArcs(g, Range(a.es)) ELSE GAddEdges(g, Range(a.es))
    [] a.op = "contract_pair" -> GContract(g, a.u, {a.v})
    [] a.op = "contract_into" -> GContract(g, a.u, Range(a.us))
    [] a.op = "contract" -> GContract(g, a.us[1], Range(a.us))
\* two graphs; links are listed so that the small instances stay small
Copies == {[op |-> "clone", h |-> "g", to |-> "t"], [op |-> "clone", h |-> "t", to |-> "g"]}
---------------------------------------------------------------------------
Maps == UNION {[S -> 0..1] : S \in SUBSET V}
ColActs ==
  {[op |-> "col_insert", h |-> h, u |-> u, c |-> c] : h \in {"g", "t"}, u \in V, c \in 0..1}
  \cup {[op |-> "col_extend", h |-> "g", g |-> "t"], [op |-> "col_extend", h |-> "t", g |-> "g"]}
  \cup {[op |-> "col_subset", h |-> h, us |-> Listed(S), to |-> "g"] : h \in {"g", "t"}, S \in SUBSET V}
Extended(a, b) == LET off == IF a = <<>> THEN 0 ELSE MaxOf(Range(a), 0) + 1
                  IN  [v \in DOMAIN a \cup DOMAIN b |-> IF v \in DOMAIN a THEN a[v] ELSE b[v] + off]
OnCol(x, a) ==
  CASE a.op = "col_insert" -> [x EXCEPT ![a.h] = (a.u :> a.c) @@ @]
    [] a.op = "col_extend" -> [x EXCEPT ![a.h] = Extended(@, x[a.g])]
    [] a.op = "col_subset" -> [x EXCEPT !["g"] = LET f == x[a.h] IN [v \in DOMAIN f \cap Range(a.us) |-> f[v]]]
---------------------------------------------------------------------------
Weights == 1..2
DtfActs == {[op |-> "add_vertex", h |-> "g", u |-> u] : u \in V}
      \cup {[op |-> "dtf_arc", h |-> "g", u |-> u, v |-> v, w |-> w] : u \in V, v \in V, w \in Weights}
OnDtf(o, a) == IF a.op = "add_vertex" THEN [o EXCEPT !.vs = @ \cup {a.u}]
               ELSE Dtf(o.vs \cup {a.u, a.v}, o.arcs \cup {<<a.u, a.v, a.w>>}, Max(o.depth, a.w), FALSE, EmptyGraph)
---------------------------------------------------------------------------
Init ==
  CASE Kind \in {"ug", "dg"} -> s = EmptyGraph
    [] Two -> s = [g |-> EmptyGraph, t |-> EmptyGraph]
    [] Kind = "ord" -> \E U \in {AllGraphs(V)} : \E g \in U : s = [g |-> g, ord |-> Idy]
    [] Kind = "col" -> s = [g |-> <<>>, t |-> <<>>]
    [] Kind = "dtf" -> s = Dtf({}, {}, 1, FALSE, EmptyGraph)
Acts ==
  CASE Kind \in {"ug", "dg"} -> GraphOps("g", s)
    [] Two -> GraphOps("g", s.g) \cup GraphOps("t", s.t) \cup Copies
    [] Kind = "ord" -> {[op |-> "swap", h |-> "o", u |-> u, v |-> v] : u \in Pool, v \in Pool}
    [] Kind = "col" -> ColActs
    [] Kind = "dtf" -> DtfActs
Apply(x, a) ==
  CASE Kind \in {"ug", "dg"} -> OnGraph(x, a)
    [] Two -> IF a.op = "clone" THEN [x EXCEPT ![a.to] = x[a.h]] ELSE [x EXCEPT ![a.h] = OnGraph(@, a)]
    [] Kind = "ord" -> IF a.u \in V /\ a.v \in V
                       THEN LET p == PosOf(x.ord) IN [x EXCEPT !.ord = SwapSeq(@, p[a.u], p[a.v])] ELSE x
    [] Kind = "col" -> OnCol(x, a)
    [] Kind = "dtf" -> OnDtf(x, a)
Fits(x) == CASE Kind = "col" -> \A h \in {"g", "t"} : \A v \in DOMAIN x[h] : x[h][v] < 3
             [] OTHER -> TRUE
\* a state as a string
Show1(g) == <<DOMAIN g, IF Dir THEN Arcs(g) ELSE Edges(g)>>
ShowMap(f) == {<<v, f[v]>> : v \in DOMAIN f}
Show(x) ==
  CASE Kind \in {"ug", "dg"} -> ToString(Show1(x))
    [] Two -> ToString(<<Show1(x.g), Show1(x.t)>>)
    [] Kind = "ord" -> ToString(<<Edges(x.g), x.ord>>)
    [] Kind = "col" -> ToString(<<ShowMap(x.g), ShowMap(x.t)>>)
    [] Kind = "dtf" -> ToString(<<x.vs, x.arcs, x.depth>>)
Start == CASE Kind = "ord" -> [vs |-> V, es |-> Edges(s.g)] [] OTHER -> <<>>
Announce == PrintT("@@" \o ToJson([s |-> Show(s), first |-> Start]))
Next == \E a \in Acts : \E t \in {Apply(s, a)} :
  /\ Fits(t)
  /\ s' = t
  /\ PrintT("@@" \o ToJson([s |-> Show(s), a |-> a, t |-> Show(t)]))
Spec == (Init /\ Announce) /\ [][Next]_s
Shape == Kind \in {"ug"} => IsGraph(s)
=============================================================================
