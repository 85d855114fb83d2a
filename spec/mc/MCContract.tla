----------------------------- MODULE MCContract -----------------------------
(* Contraction identifies vertices (C02): two vertices are adjacent          *)
(* afterwards iff some of their preimages were; contracting step by step or  *)
(* all at once, in any order, is the same.                                   *)
EXTENDS MCBase
VARIABLES g, c, S
vars == <<g, c, S>>
Init == g \in AllSubGraphs(V) /\ c \in DOMAIN g /\ S \in SUBSET DOMAIN g
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
h == GContract(g, c, S)
pre(x) == IF x = c THEN S \cup {c} ELSE {x}
Identifies ==
  /\ IsGraph(h) /\ DOMAIN h = DOMAIN g \ (S \ {c})
  /\ \A x, y \in DOMAIN h : x # y => (y \in h[x]) = \E a \in pre(x), b \in pre(y) : b \in g[a]
\* no new loop, old ones outside the set and at the centre stay
LoopsKept == Loops(h) = Loops(g) \ (S \ {c})
\* one vertex at a time, in any order
RECURSIVE Orders1(_, _)
Orders1(x, T) == IF T = {} THEN {x} ELSE UNION {Orders1(GContract(x, c, {t}), T \ {t}) : t \in T}
Stepwise == Orders1(g, S \ {c}) = {h}
\* the resulting edge count never grows, components survive
Smaller == NumEdges(h) <= NumEdges(g) /\ Cardinality(Components(h)) <= Cardinality(Components(g))
Connected == \A x, y \in DOMAIN h : (y \in ComponentOf(g, x)) => (y \in ComponentOf(h, x))
=============================================================================
