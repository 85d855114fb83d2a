------------------------------- MODULE MCDtf --------------------------------
(***************************************************************************)
(* How augmentations grow (C22, C23): every round adds the transitive arcs  *)
(* of the new weight and, for every fraternal pair that no arc joins, one   *)
(* arc in either direction.  Whatever the start orientation and whatever    *)
(* directions are chosen, every round keeps the oracle exact.               *)
(***************************************************************************)
EXTENDS MCBase, Augmentations
CONSTANT Depth
VARIABLES g, arcs, depth
vars == <<g, arcs, depth>>
O == Dtf(V, arcs, depth, TRUE, g)
Init ==
  /\ g \in AllGraphs(V)
  /\ depth = 1
  \* the set of graphs is closed under renaming, so this is every acyclic orientation
  /\ arcs = {<<e[1], e[2], 1>> : e \in Edges(g)}
\* walks of two arcs with weights w + (d - w) into u, from tails without an arc to u
Transitive(o, d) ==
  {<<x, u>> \in V \X V : x # u /\ (\E w \in 1..(d - 1) : \E y \in InAt(o, u, w) : x \in InAt(o, y, d - w))
                               /\ ~\E a \in o.arcs : a[1] = x /\ a[2] = u}
\* pairs of in-neighbours that no arc joins; at weights d # 2 one of the two arcs has weight 1
Fraternal(o, d) ==
  {e \in Up(V) : /\ \E u \in V : \E w \in {1, d - 1} :
                      \/ e[1] \in InAt(o, u, w) /\ e[2] \in InAt(o, u, d - w)
                      \/ e[2] \in InAt(o, u, w) /\ e[1] \in InAt(o, u, d - w)
                 /\ ~Adj(DtfUnd(o), e[1], e[2])}
Round ==
  /\ depth < Depth
  /\ \E d \in {depth + 1} : \E o \in {O} : \E T \in {Transitive(o, d)} :
     \E F \in {{e \in Fraternal(o, d) : e \notin T /\ <<e[2], e[1]>> \notin T}} :
     \E B \in SUBSET F :
       /\ arcs' = arcs \cup {<<a[1], a[2], d>> : a \in T} \cup {<<e[1], e[2], d>> : e \in F \ B}
                       \cup {<<e[2], e[1], d>> : e \in B}
       /\ depth' = d
  /\ UNCHANGED g
Next == Round
Spec == Init /\ [][Next]_vars
Exact == ExactOracle(O)
WF == WellFormed(O)
\* between two vertices there is at most one arc per direction
Single == \A a, b \in arcs : Plain({a}) = Plain({b}) => a = b
LayerOne == {Pair(a) : a \in Plain(ArcsAt(O, 1))} = Edges(g)
=============================================================================
