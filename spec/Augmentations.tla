--------------------------- MODULE Augmentations ----------------------------
(* Distance-truncated augmentations (C22 - C24) and what they answer. *)
EXTENDS Graphs

Dtf(V, arcs, depth, hasbase, base) ==
  [k |-> "dtf", vs |-> V, arcs |-> arcs, depth |-> depth, hasbase |-> hasbase, base |-> base]
ArcsAt(o, d) == {a \in o.arcs : a[3] = d}
InAt(o, v, d) == {a[1] : a \in {b \in o.arcs : b[2] = v /\ b[3] = d}}
Plain(A) == {<<a[1], a[2]>> : a \in A}
DtfUnd(o) == MkGraph(o.vs, Plain(o.arcs))
DtfIn(o, v) == Cardinality({a \in o.arcs : a[2] = v})
DtfOut(o, v) == Cardinality({a \in o.arcs : a[1] = v})

\* what the augmentation answers, from its arcs alone
\* inm[v] = the pairs (tail, weight) of the arcs into v
InMap(o) == TLCEval([v \in o.vs |-> {<<a[1], a[3]>> : a \in {b \in o.arcs : b[2] = v}}])
DistBy(o, inm, u, v) ==
  IF u = v THEN 0
  ELSE LET direct == {p[2] : p \in {q \in inm[v] : q[1] = u} \cup {q \in inm[u] : q[1] = v}}
           via == UNION {{p[2] + q[2] : q \in {x \in inm[v] : x[1] = p[1]}} : p \in inm[u]}
           d == MinOf(direct \cup via, o.depth + 1)
       IN  IF d > o.depth THEN -1 ELSE d
SmallDist(o, u, v) == DistBy(o, InMap(o), u, v)
\* every arc spans a walk of its weight, and all distances up to the depth are answered
DistMap(V, L) == [v \in V |-> LET I == {i \in DOMAIN L : v \in L[i]} IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : TRUE) - 1]
ExactOracle(aug) ==
  \E o \in {aug} : \E inm \in {InMap(o)}, und \in {o.base} :
    \A u \in o.vs :
      \E L \in {Layers(und, {u}, o.depth)} : \E D \in {DistMap(o.vs, L)} :
        /\ \A v \in o.vs : DistBy(o, inm, u, v) = D[v]
        /\ \A p \in inm[u] : D[p[1]] >= 1 /\ D[p[1]] <= p[2]
WellFormed(o) ==
  \A a \in o.arcs : a[1] \in o.vs /\ a[2] \in o.vs /\ a[3] \in 1..o.depth
\* arcs = a recorded list of pairs: an acyclic orientation of the graph
IsOrientation(as, g) ==
  /\ Distinct(as)
  /\ Len(as) = NumEdges(g)
  /\ {Pair(a) : a \in Range(as)} = Edges(g)
  /\ Acyclic(MkDigraph(DOMAIN g, Range(as)))

=============================================================================
