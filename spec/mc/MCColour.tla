------------------------------ MODULE MCColour ------------------------------
(***************************************************************************)
(* Greedy colouring as it is built: the colours used so far are a counter;  *)
(* a vertex opens a new colour exactly if its left neighbours use all of    *)
(* them (C19).                                                              *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, i, used, col
vars == <<g, i, used, col>>
Init == g \in AllGraphs(V) /\ i = 0 /\ used = 0 /\ col = EmptyGraph
Next ==
  /\ i < N
  /\ LET nc == {col[u] : u \in {x \in g[i] : x < i}}
     IN  IF Cardinality(nc) = used
         THEN used' = used + 1 /\ col' = (i :> used) @@ col
         ELSE used' = used /\ col' = (i :> MinOf((0..(used - 1)) \ nc, 0)) @@ col
  /\ i' = i + 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
Prefix ==
  \E h \in {Induced(g, 0..(i - 1))} : \E o \in {Ord(h, SubSeq(Idy, 1, i))} :
    /\ IsGreedy(o, col)
    /\ {col[v] : v \in DOMAIN col} = 0..(used - 1)
    /\ \A v \in DOMAIN h : \A u \in h[v] : col[u] # col[v]
    /\ used <= 1 + MaxOf({Cardinality(Left(o, v)) : v \in DOMAIN h}, -1)
    /\ used <= 1 + MaxOf({Cardinality(h[v]) : v \in DOMAIN h}, -1)
=============================================================================
