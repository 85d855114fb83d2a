------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Mathematical vocabulary.  An undirected graph is a function g with       *)
(* DOMAIN g = vertices and g[v] = set of neighbours (symmetric; v \in g[v]  *)
(* is a loop).  A digraph is a function d with d[v] = out-neighbours.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Range(s)) = Len(s)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
\* P as a value.  A guard of a step is otherwise explored conjunct by conjunct, nested as deep as its quantifiers are wide.
Sure(P) == P = TRUE
\* The sequence s enumerates the set S, every element exactly once
Lists(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
MaxOf(S, dflt) == IF S = {} THEN dflt ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S, dflt) == IF S = {} THEN dflt ELSE CHOOSE x \in S : \A y \in S : x <= y
Pair(e) == IF e[1] <= e[2] THEN e ELSE <<e[2], e[1]>>

(* A recorded map (sequence of key-value pairs) equals the function F on D *)
IsMap(s, D, F(_)) == Len(s) = Cardinality(D) /\ Range(s) = {<<x, F(x)>> : x \in D}
(* ... where the values are sequences that enumerate the set F(key) *)
IsSetMap(s, D, F(_)) ==
  /\ Len(s) = Cardinality(D)
  /\ {p[1] : p \in Range(s)} = D
  /\ \A i \in DOMAIN s : Lists(s[i][2], F(s[i][1]))

---------------------------------------------------------------------------
(* Undirected graphs *)
EmptyGraph == [v \in {} |-> {}]
Verts(g) == DOMAIN g
MkGraph(V, E) == TLCEval([v \in V |-> {u \in V : <<u, v>> \in E \/ <<v, u>> \in E}])
Adj(g, u, v) == u \in DOMAIN g /\ v \in g[u]
\* every edge once, smaller endpoint first
Edges(g) == UNION {{<<u, v>> : v \in {x \in g[u] : u <= x}} : u \in DOMAIN g}
NumEdges(g) == Cardinality(Edges(g))
Degree(g, v) == IF v \in DOMAIN g THEN Cardinality(g[v]) + (IF v \in g[v] THEN 1 ELSE 0) ELSE 0
Loops(g) == {v \in DOMAIN g : v \in g[v]}
LoopFree(g) == Loops(g) = {}
Isolates(g) == {v \in DOMAIN g : g[v] = {}}
IsGraph(g) == \A u \in DOMAIN g : g[u] \subseteq DOMAIN g /\ \A v \in g[u] : u \in g[v]

GAddVertex(g, u) == IF u \in DOMAIN g THEN g ELSE (u :> {}) @@ g
GAddVertices(g, S) == TLCEval([v \in DOMAIN g \cup S |-> IF v \in DOMAIN g THEN g[v] ELSE {}])
GAddEdge(g, u, v) ==
  LET h == GAddVertex(GAddVertex(g, u), v)
  IN  TLCEval([x \in DOMAIN h |-> h[x] \cup (IF x = u THEN {v} ELSE {}) \cup (IF x = v THEN {u} ELSE {})])
\* E: a set of pairs in any orientation
GAddEdges(g, E) ==
  LET V == DOMAIN g \cup {e[1] : e \in E} \cup {e[2] : e \in E}
  IN  TLCEval([x \in V |-> (IF x \in DOMAIN g THEN g[x] ELSE {}) \cup {y \in V : <<x, y>> \in E \/ <<y, x>> \in E}])
GRemoveEdge(g, u, v) ==
  IF Adj(g, u, v)
  THEN TLCEval([x \in DOMAIN g |-> g[x] \ ((IF x = u THEN {v} ELSE {}) \cup (IF x = v THEN {u} ELSE {}))])
  ELSE g
GRemoveVertices(g, S) == TLCEval([x \in DOMAIN g \ S |-> g[x] \ S])
GRemoveLoops(g) == TLCEval([x \in DOMAIN g |-> g[x] \ {x}])
Induced(g, S) == TLCEval([x \in DOMAIN g \cap S |-> g[x] \cap S])
\* Identify S (a set) with the centre c: new edges, no new loop, S removed
GContract(g, c, S) ==
  LET T == S \ {c}
      N == (UNION {g[x] : x \in T}) \ (T \cup {c})
  IN  TLCEval([x \in DOMAIN g \ T |->
         IF x = c THEN (g[c] \ T) \cup N
         ELSE (g[x] \ T) \cup (IF x \in N THEN {c} ELSE {})])
\* Relabelling with an injective function f
GRename(g, f) == TLCEval([x \in {f[v] : v \in DOMAIN g} |->
                    LET v == CHOOSE v \in DOMAIN g : f[v] = x IN {f[u] : u \in g[v]}])
\* number of elements of S smaller than x
RankIn(S, x) == Cardinality({y \in S : y < x})
GShift(g, o) == TLCEval([x \in {v + o : v \in DOMAIN g} |-> {u + o : u \in g[x - o]}])
OffsetOf(g) == MaxOf(DOMAIN g, -1) + 1
GUnion(g, h) == TLCEval([x \in DOMAIN g \cup DOMAIN h |->
                   (IF x \in DOMAIN g THEN g[x] ELSE {}) \cup (IF x \in DOMAIN h THEN h[x] ELSE {})])
DisjUnion(g, h) == GUnion(g, GShift(h, OffsetOf(g)))

---------------------------------------------------------------------------
(* Neighbourhoods and distances *)
Nbrs(g, X) == UNION {g[x] : x \in X}
OpenNbhd(g, X) == Nbrs(g, X) \ X
ClosedNbhd(g, X) == Nbrs(g, X) \cup X
RECURSIVE Ball(_, _, _)
Ball(g, X, r) == IF r = 0 THEN X
                 ELSE LET Y == TLCEval(ClosedNbhd(g, X)) IN IF Y = X THEN X ELSE Ball(g, Y, r - 1)
\* breadth-first layers up to distance r: the i-th set holds the vertices at distance i-1
\* from X; empty layers at the end are left out
RECURSIVE BfsFrom(_, _, _, _)
BfsFrom(g, seen, last, r) ==
  IF r = 0 THEN <<>>
  ELSE LET nxt == TLCEval(Nbrs(g, last) \ seen)
       IN  IF nxt = {} THEN <<>> ELSE <<nxt>> \o BfsFrom(g, seen \cup nxt, nxt, r - 1)
Layers(g, X, r) == <<X>> \o BfsFrom(g, X, X, r)
\* distance of u and v if it is at most r, -1 otherwise
DistUpTo(g, u, v, r) ==
  LET L == Layers(g, {u}, r)
      I == {i \in DOMAIN L : v \in L[i]}
  IN  IF I = {} THEN -1 ELSE (CHOOSE i \in I : TRUE) - 1
ComponentOf(g, v) == Ball(g, {v}, Cardinality(DOMAIN g))
RECURSIVE ComponentsIn(_, _)
ComponentsIn(g, left) ==
  IF left = {} THEN {}
  ELSE LET C == TLCEval(ComponentOf(g, CHOOSE v \in left : TRUE)) IN {C} \cup ComponentsIn(g, left \ C)
Components(gr) == CHOOSE y \in {ComponentsIn(g, DOMAIN g) : g \in {gr}} : TRUE

(* Bipartite: a graph is bipartite iff no edge joins two vertices whose BFS   *)
(* distance from a root of their component has the same parity                *)
IsBipartition(g, A, B) ==
  /\ A \cap B = {}
  /\ A \cup B = DOMAIN g
  /\ \A v \in A : g[v] \subseteq B
  /\ \A v \in B : g[v] \subseteq A
IsOddCycle(g, c) ==
  /\ Len(c) % 2 = 1
  /\ Distinct(c)
  /\ Range(c) \subseteq DOMAIN g
  /\ \A i \in DOMAIN c : c[IF i = Len(c) THEN 1 ELSE i + 1] \in g[c[i]]

(* Cores.  KCore(g, V, k) = the largest subset of V inducing minimum degree >= k *)
RECURSIVE KCore(_, _, _)
KCore(g, V, k) ==
  LET W == TLCEval({v \in V : Cardinality(g[v] \cap V) >= k})
  IN  IF W = V THEN V ELSE KCore(g, W, k)
\* sequence of the k-cores for k = 0, 1, ... while they are non-empty
RECURSIVE CoresFrom(_, _, _)
CoresFrom(g, V, k) == LET W == KCore(g, V, k) IN IF W = {} THEN <<>> ELSE <<W>> \o CoresFrom(g, W, k + 1)
Cores(g) == CoresFrom(g, DOMAIN g, 0)
CoreNumber(cores, v) == MaxOf({k \in DOMAIN cores : v \in cores[k]}, 1) - 1
\* the same core numbers by peeling (agreement is checked in mc/MCOrders): D = degrees inside the rest
\* F applied to the value of v: evaluates v once
Of(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE
RECURSIVE PeelCores(_, _, _)
PeelCores(gr, deg, k) ==
  IF DOMAIN deg = {} THEN EmptyGraph
  ELSE Of(<<gr, deg>>, LAMBDA in :
    LET g == in[1]
        D == in[2]
    IN  Of(Max(k, MinOf({D[v] : v \in DOMAIN D}, 0)), LAMBDA kk :
          Of({v \in DOMAIN D : D[v] <= kk}, LAMBDA S :
            [v \in S |-> kk] @@ PeelCores(g, [v \in DOMAIN D \ S |-> D[v] - Cardinality(g[v] \cap S)], kk))))
CoreMap(gr) == Of(gr, LAMBDA g : PeelCores(g, [v \in DOMAIN g |-> Cardinality(g[v])], 0))
Degeneracy(gr) == Of(CoreMap(gr), LAMBDA m : MaxOf({m[v] : v \in DOMAIN m}, 0))

(* Cliques (loop-free graphs) *)
CommonNbrs(g, C) == {v \in DOMAIN g : C \subseteq g[v]}
\* all cliques, grown vertex by vertex: S is a clique with candidates cand (all larger than max S)
RECURSIVE CliquesFrom(_, _, _)
CliquesFrom(g, S, cand) ==
  {S} \cup UNION {CliquesFrom(g, S \cup {v}, {u \in cand \cap g[v] : u > v}) : v \in cand}
\* number of maximal cliques that extend a clique by some of its common neighbours cand and
\* by none of excl.  Every one of them contains the pivot p or a vertex that is not joined to it.
RECURSIVE NumMaxFrom(_, _, _)
NumMaxFrom(g, cand, excl) ==
  IF cand = {} THEN IF excl = {} THEN 1 ELSE 0
  ELSE LET all == TLCEval(cand \cup excl)
           joined == TLCEval([v \in all |-> Cardinality(cand \cap g[v])])
           p == CHOOSE v \in all : \A w \in all : joined[w] <= joined[v]
           RECURSIVE SumOver(_, _, _)
           SumOver(todo, c, x) ==
             IF todo = {} THEN 0
             ELSE LET v == CHOOSE y \in todo : TRUE
                  IN  NumMaxFrom(g, TLCEval(c \cap g[v]), TLCEval(x \cap g[v])) + SumOver(todo \ {v}, TLCEval(c \ {v}), x \cup {v})
       IN  SumOver(TLCEval(cand \ g[p]), cand, excl)
NumMaxCliques(g) == IF DOMAIN g = {} THEN 0 ELSE NumMaxFrom(g, DOMAIN g, {})
\* the textbook definition, for model checking small graphs
IsClique(g, C) == C \subseteq DOMAIN g /\ \A u, v \in C : u # v => v \in g[u]
MaxCliques(g) == {C \in SUBSET DOMAIN g : C # {} /\ IsClique(g, C)
                     /\ \A v \in DOMAIN g \ C : ~IsClique(g, C \cup {v})}

IsSubgraph(g, h) == DOMAIN g \subseteq DOMAIN h /\ \A v \in DOMAIN g : g[v] \subseteq h[v]

---------------------------------------------------------------------------
(* Digraphs *)
MkDigraph(V, A) == TLCEval([v \in V |-> {u \in V : <<v, u>> \in A}])
Arcs(d) == UNION {{<<u, v>> : v \in d[u]} : u \in DOMAIN d}
InN(d, v) == {u \in DOMAIN d : v \in d[u]}
Transpose(d) == TLCEval([v \in DOMAIN d |-> InN(d, v)])
Underlying(d) == TLCEval([v \in DOMAIN d |-> d[v] \cup InN(d, v)])
HasArc(d, u, v) == u \in DOMAIN d /\ v \in d[u]
DAddVertex(d, u) == GAddVertex(d, u)
DAddArc(d, u, v) == LET h == GAddVertex(GAddVertex(d, u), v) IN TLCEval([h EXCEPT ![u] = @ \cup {v}])
DAddArcs(d, A) ==
  LET V == DOMAIN d \cup {e[1] : e \in A} \cup {e[2] : e \in A}
  IN  TLCEval([x \in V |-> (IF x \in DOMAIN d THEN d[x] ELSE {}) \cup {y \in V : <<x, y>> \in A}])
DRemoveArc(d, u, v) == IF HasArc(d, u, v) THEN [d EXCEPT ![u] = @ \ {v}] ELSE d
DRemoveVertices(d, S) == GRemoveVertices(d, S)
DDegree(d, v) == IF v \in DOMAIN d THEN Cardinality(d[v]) + Cardinality(InN(d, v)) ELSE 0
Acyclic(d) ==
  LET RECURSIVE Peel(_)
      Peel(V) == IF V = {} THEN TRUE
                 ELSE LET S == {v \in V : d[v] \cap V = {}} IN S # {} /\ Peel(V \ S)
  IN  Peel(DOMAIN d)
=============================================================================
