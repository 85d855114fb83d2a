----------------------------- MODULE MCCliques ------------------------------
(***************************************************************************)
(* Maximal clique counting as it is built: for every vertex in order, the   *)
(* cliques whose last vertex it is are found by Bron-Kerbosch with a pivot  *)
(* inside its left neighbourhood, and the clique without it, maximal until  *)
(* now, is taken back (C18).  The graphs are closed under renaming, so one  *)
(* order suffices.                                                          *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, i, found
vars == <<g, i, found>>
Init == g \in AllGraphs(V) /\ i = 0 /\ found = {}
\* vs: increasing sequence of candidates
RECURSIVE Bk(_, _, _, _, _, _, _)
Bk(x, v, vs, inc, maybe, excl, res) ==
  IF maybe = {} /\ excl = {} THEN (res \cup {inc}) \ (IF Cardinality(inc) > 1 THEN {inc \ {v}} ELSE {})
  ELSE LET iu == MaxOf({j \in DOMAIN vs : vs[j] \in maybe \cup excl}, 0)
           u == vs[iu]
           pruned == {vs[j] : j \in {k \in 1..(iu - 1) : u \in x[vs[k]]}}
           RECURSIVE Loop(_, _, _, _)
           \* j runs from iu down to 1
           Loop(j, mb, ex, r) ==
             IF j = 0 THEN r
             ELSE LET w == vs[j] IN
               IF w \notin mb \/ w \in pruned THEN Loop(j - 1, mb, ex, r)
               ELSE LET ws == SelectSeq(SubSeq(vs, 1, iu), LAMBDA y : y \in x[w])
                        wset == Range(ws)
                    IN  Loop(j - 1, mb \ {w}, ex \cup {w}, Bk(x, v, ws, inc \cup {w}, mb \cap wset, ex \cap wset, r))
       IN  Loop(iu, maybe, excl, res)
Next ==
  /\ i < N
  /\ LET left == {u \in g[i] : u < i}
         vs == SelectSeq(Idy, LAMBDA u : u \in left)
     IN  found' = Bk(g, i, vs, {i}, left, {}, found)
  /\ i' = i + 1
  /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
\* after i vertices: exactly the maximal cliques of the graph on them
Prefix == \E h \in {Induced(g, 0..(i - 1))} : found = MaxCliques(h) /\ Cardinality(found) = NumMaxCliques(h)
=============================================================================
