------------------------------- MODULE MCBase -------------------------------
(* Universes of small graphs and orders shared by the design models (with   *)
(* parameters, so that TLC does not evaluate the unused ones up front).     *)
EXTENDS Orders
CONSTANT N
V == 0..(N - 1)
Up(W) == {a \in W \X W : a[1] < a[2]}
UpL(W) == {a \in W \X W : a[1] <= a[2]}
\* all graphs with exactly the vertices W
AllGraphs(W) == {MkGraph(W, E) : E \in SUBSET Up(W)}
AllLoopGraphs(W) == {MkGraph(W, E) : E \in SUBSET UpL(W)}
AllDigraphs(W) == {MkDigraph(W, A) : A \in SUBSET (W \X W)}
\* all graphs on subsets of W, loops included
AllSubGraphs(W) == UNION {AllLoopGraphs(U) : U \in SUBSET W}
AllSubDigraphs(W) == UNION {AllDigraphs(U) : U \in SUBSET W}
Perms(S) == {p \in [1..Cardinality(S) -> S] : Range(p) = S}
Ord(g, p) == [g |-> g, ord |-> p, pos |-> PosOf(p)]
\* the order 0, 1, 2, ...
Idy == [i \in 1..N |-> i - 1]
=============================================================================
