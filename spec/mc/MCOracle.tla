------------------------------ MODULE MCOracle ------------------------------
(***************************************************************************)
(* The trace oracle (C25).  Every vertex v keeps a context (its 2-reach     *)
(* with itself) and counts, for every vertex to the right, the prefix of    *)
(* its left neighbourhood that ends in v.  A query over X first moves       *)
(* counts from the prefix of a set to the set, member by member of X, then  *)
(* corrects by the vertices to the left of and inside X.  The corrections   *)
(* may come in any order within a step: no entry that is decreased is ever  *)
(* missing and no count ever becomes negative.                              *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, X, i, todo, tr, phase
vars == <<g, X, i, todo, tr, phase>>
Lf(v) == {u \in g[v] : u < v}
Seqd(S) == SelectSeq(Idy, LAMBDA v : v \in S)
Upto(S, v) == {u \in S : u <= v}
Context(v) == {p[1] : p \in SReach(Ord(g, Idy), v, 2)} \cup {v}
\* the recorded prefixes of anchor a, with their owners (a bag)
Recorded(a) == {<<y, Upto(Lf(y), a)>> : y \in {z \in V : a \in Lf(z)}}
\* what the context of a can represent of them
Stored(a) == {<<p[1], p[2] \cap Context(a)>> : p \in Recorded(a)}
\* set -> count within the target T
Counts(a, T) ==
  LET B == {<<p[1], p[2] \cap T>> : p \in Stored(a)}
  IN  {<<S, Cardinality({p \in B : p[2] = S})>> : S \in {p[2] : p \in B}}
Outer == {y \in V : \E x \in X : y \in Lf(x)} \cup X
Init ==
  /\ g \in AllGraphs(V) /\ X \in SUBSET V
  /\ i = 0 /\ todo = {} /\ tr = ({} :> N) /\ phase = "right"
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Bump(f, k, d) == (k :> At(f, k) + d) @@ f
xs == Seqd(X)
Fixed == UNCHANGED <<g, X>>
NextAnchor ==
  /\ phase = "right" /\ todo = {} /\ i < Len(xs)
  /\ i' = i + 1
  /\ todo' = Counts(xs[i + 1], Upto(X, xs[i + 1])) \ {c \in Counts(xs[i + 1], Upto(X, xs[i + 1])) : c[1] = {}}
  /\ Fixed /\ UNCHANGED <<tr, phase>>
Move ==
  /\ phase = "right" /\ todo # {}
  /\ \E c \in todo :
       /\ todo' = todo \ {c}
       /\ LET pre == c[1] \ {MaxOf(c[1], 0)}
          IN  /\ Assert(pre \in DOMAIN tr, "missing prefix")
              /\ Assert(tr[pre] >= c[2], "negative count")
              /\ tr' = Bump(Bump(tr, c[1], c[2]), pre, -c[2])
  /\ Fixed /\ UNCHANGED <<i, phase>>
Switch ==
  /\ phase = "right" /\ todo = {} /\ i = Len(xs)
  /\ phase' = "left" /\ todo' = Outer
  /\ Fixed /\ UNCHANGED <<i, tr>>
Correct ==
  /\ phase = "left" /\ todo # {}
  /\ \E y \in todo :
       /\ todo' = todo \ {y}
       /\ LET full == g[y] \cap X
              pre == Lf(y) \cap X
              t1 == IF y \in X THEN tr ELSE Bump(tr, full, 1)
          IN  /\ Assert(pre \in DOMAIN t1, "missing prefix")
              /\ Assert(t1[pre] >= 1, "negative count")
              /\ tr' = Bump(t1, pre, -1)
  /\ Fixed /\ UNCHANGED <<i, phase>>
Next == NextAnchor \/ Move \/ Switch \/ Correct
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == phase = "left" /\ todo = {}
Positive(f) == {k \in DOMAIN f : f[k] > 0}
Result == Done =>
  /\ Positive(tr) = TraceSets(g, X)
  /\ \A S \in Positive(tr) : tr[S] = TraceCount(g, X, S)
\* the number of neighbours, counted at the first member of X that every vertex sees
First(a, T) == Cardinality({p \in Stored(a) : p[2] \cap T = {a}})
RECURSIVE SumFirst(_)
SumFirst(k) == IF k = 0 THEN 0 ELSE First(xs[k], Upto(X, xs[k])) + SumFirst(k - 1)
Neighbours == phase = "right" /\ i = 0 =>
  SumFirst(Len(xs)) - Cardinality({u \in Outer : u \in X /\ Lf(u) \cap X # {}})
    + Cardinality({u \in Outer : u \notin X /\ Lf(u) \cap X = {}}) = Cardinality(OpenNbhd(g, X))
Fits == \A a \in V : \A p \in Recorded(a) : p[2] \subseteq Context(a)
Ends == <>Done
=============================================================================
