------------------------------- MODULE Orders -------------------------------
(***************************************************************************)
(* Linear orders of the vertices of a loop-free graph: left and right       *)
(* neighbours, strongly and weakly reachable sets.  An ordered graph is a   *)
(* record o with o.g (the graph), o.ord (the sequence) and o.pos.           *)
(***************************************************************************)
EXTENDS Graphs

PosOf(ord) == TLCEval([v \in Range(ord) |-> CHOOSE i \in DOMAIN ord : ord[i] = v])
IsOrderOf(ord, V) == Lists(ord, V)
Left(o, v) == {u \in o.g[v] : o.pos[u] < o.pos[v]}
Right(o, v) == {u \in o.g[v] : o.pos[u] > o.pos[v]}
\* the sequence s lists the set S in the order of o
ListsInOrder(o, s, S) ==
  /\ Range(s) = S
  /\ \A i \in 1..(Len(s) - 1) : o.pos[s[i]] < o.pos[s[i + 1]]
SortByPos(o, S) == SelectSeq(o.ord, LAMBDA v : v \in S)
SwapSeq(ord, i, j) == [ord EXCEPT ![i] = ord[j], ![j] = ord[i]]

\* layers of distance from u inside the vertices that are not before u, up to
\* distance r; empty layers at the end are left out
RightLayers(o, u, r) ==
  LET p == o.pos[u]
      RECURSIVE F(_, _, _)
      F(seen, last, k) ==
        IF k = 0 THEN <<>>
        ELSE LET nxt == TLCEval({v \in Nbrs(o.g, last) \ seen : o.pos[v] > p})
             IN  IF nxt = {} THEN <<>> ELSE <<nxt>> \o F(seen \cup nxt, nxt, k - 1)
  IN  <<{u}>> \o F({u}, {u}, r)

\* strongly r-reachable vertices of u: pairs (vertex, length of a shortest such path)
SReach(o, u, r) ==
  LET L == TLCEval(IF r = 0 THEN <<>> ELSE RightLayers(o, u, r - 1))
      cand(i) == {v \in Nbrs(o.g, L[i]) : o.pos[v] < o.pos[u]}
  IN  {<<v, MinOf({i \in DOMAIN L : v \in cand(i)}, 0)>> : v \in UNION {cand(i) : i \in DOMAIN L}}

\* weakly r-reachable sets of all vertices
WReachAll(o, r) ==
  LET L == TLCEval([v \in DOMAIN o.g |-> RightLayers(o, v, r)])
      at(u, v) == {i \in 2..Len(L[v]) : u \in L[v][i]}
  IN  TLCEval([u \in DOMAIN o.g |->
         {<<v, (CHOOSE i \in at(u, v) : TRUE) - 1>> : v \in {w \in DOMAIN o.g : at(u, w) # {}}}])

---------------------------------------------------------------------------
(* The literal definitions by paths; only for model checking small graphs. *)
\* all simple paths that extend the sequence p by at most len edges
RECURSIVE Extend(_, _, _)
Extend(g, p, len) == {p} \cup IF len = 0 THEN {} ELSE UNION {Extend(g, Append(p, w), len - 1) : w \in g[p[Len(p)]] \ Range(p)}
Last(p) == p[Len(p)]
\* the ends of the paths of P with the length of the shortest one
EndsOf(P) == {<<v, MinOf({Len(p) - 1 : p \in {q \in P : Last(q) = v}}, 0)>> : v \in {Last(p) : p \in P}}
SReachDef(o, u, r) == Of({p \in Extend(o.g, <<u>>, r) : /\ Len(p) > 1
                                                       /\ o.pos[Last(p)] < o.pos[u]
                                                       /\ \A i \in 2..(Len(p) - 1) : o.pos[p[i]] > o.pos[u]}, EndsOf)
WReachDef(o, u, r) == Of({p \in Extend(o.g, <<u>>, r) : Len(p) > 1 /\ \A i \in 1..(Len(p) - 1) : o.pos[p[i]] > o.pos[Last(p)]}, EndsOf)

(* Greedy colouring: col is a function; every vertex has the smallest colour *)
(* not used by its left neighbours                                           *)
IsGreedy(o, col) ==
  /\ DOMAIN col = DOMAIN o.g
  /\ \A v \in DOMAIN o.g :
       LET used == {col[u] : u \in Left(o, v)}
       IN  /\ col[v] \notin used
           /\ \A c \in 0..(col[v] - 1) : c \in used

(* Neighbourhood traces of the set X: for S \subseteq X the number of vertices *)
(* outside X whose neighbourhood in X is S                                     *)
TraceCount(g, X, S) == Cardinality({y \in DOMAIN g \ X : g[y] \cap X = S})
TraceSets(g, X) == {g[y] \cap X : y \in DOMAIN g \ X}
=============================================================================
