---------------------------- MODULE MCGraphDefs -----------------------------
(* Definitions on unordered graphs against their textbook versions. *)
EXTENDS MCBase
VARIABLE g
Init == g \in AllGraphs(V)
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
CliqueCount == NumMaxCliques(g) = Cardinality(MaxCliques(g))
AllCliques == CliquesFrom(g, {}, V) = {C \in SUBSET V : IsClique(g, C)}
CoreNumbers == LET c == Cores(g) IN \A v \in V : CoreMap(g)[v] = CoreNumber(c, v)
\* the textbook degeneracy: max over subgraphs of the minimum degree
DegeneracyDef == Degeneracy(g) = MaxOf({MinOf({Cardinality(g[v] \cap W) : v \in W}, 0) : W \in (SUBSET V) \ {{}}}, 0)
\* literal walks
RECURSIVE Reaches(_, _, _)
Reaches(u, v, k) == IF k = 0 THEN u = v ELSE Reaches(u, v, k - 1) \/ \E w \in g[u] : Reaches(w, v, k - 1)
Distances == \A u, v \in V : \A k \in 0..N : (v \in Ball(g, {u}, k)) = Reaches(u, v, k)
DistanceExact == \A u, v \in V : LET d == DistUpTo(g, u, v, N) IN
   IF d = -1 THEN ~Reaches(u, v, N) ELSE Reaches(u, v, d) /\ (d > 0 => ~Reaches(u, v, d - 1))
ComponentsPartition ==
  /\ UNION Components(g) = V
  /\ \A A, B \in Components(g) : A = B \/ A \cap B = {}
  /\ \A A \in Components(g) : \A u, v \in V : Reaches(u, v, N) => (u \in A) = (v \in A)
\* a graph has a bipartition or an odd cycle, never both
BipartiteDichotomy ==
  LET bip == \E A \in SUBSET V : IsBipartition(g, A, V \ A)
      odd == \E k \in 1..N : \E c \in [1..k -> V] : IsOddCycle(g, c)
  IN  bip # odd
Contractions == \A c \in V : \A S \in SUBSET V :
   LET h == GContract(g, c, S) IN
     /\ IsGraph(h)
     /\ DOMAIN h = V \ (S \ {c})
     /\ \A x, y \in DOMAIN h : x # y =>
          (y \in h[x]) = \E a \in (IF x = c THEN S \cup {c} ELSE {x}), b \in (IF y = c THEN S \cup {c} ELSE {y}) : b \in g[a]
     /\ LoopFree(h)
Unions == LET u == DisjUnion(g, g) IN IsGraph(u) /\ Cardinality(DOMAIN u) = 2 * N /\ NumEdges(u) = 2 * NumEdges(g) /\ Induced(u, V) = g
=============================================================================
