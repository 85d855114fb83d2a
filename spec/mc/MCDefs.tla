------------------------------- MODULE MCDefs -------------------------------
(***************************************************************************)
(* The executable definitions of reachable sets used for trace validation   *)
(* agree with the literal ones by paths, and the facts the algorithms built *)
(* on them rely on hold, for every small graph (C16, C17, C20, C21).  The   *)
(* graphs are closed under renaming, so one order suffices.                 *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT R
VARIABLES g, r
vars == <<g, r>>
Init == g \in AllGraphs(V) /\ r \in 1..R
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

IsDef ==
  \E o \in {Ord(g, Idy)} : \E W \in {WReachAll(o, r)} :
    \A u \in V : SReach(o, u, r) = SReachDef(o, u, r) /\ W[u] = WReachDef(o, u, r)
\* strong reachability is contained in weak reachability; both stay to the left; the first layer is the left neighbourhood
Laws ==
  \E o \in {Ord(g, Idy)} : \E W \in {WReachAll(o, r)} :
    \A u \in V : \E S \in {SReach(o, u, r)} :
        /\ {p[1] : p \in S} \subseteq {p[1] : p \in W[u]}
        /\ \A p \in W[u] \cup S : p[2] \in 1..r /\ o.pos[p[1]] < o.pos[u]
        /\ {p[1] : p \in {q \in S : q[2] = 1}} = Left(o, u)
        /\ {p[1] : p \in {q \in W[u] : q[2] = 1}} = Left(o, u)
\* every short path has a leftmost vertex, weakly reachable from both ends: so distances up to r are sums
Distance ==
  \E o \in {Ord(g, Idy)} : \E W \in {WReachAll(o, r)} :
    \A u, v \in V :
      \E du \in {W[u] \cup {<<u, 0>>}}, dv \in {W[v] \cup {<<v, 0>>}} :
        LET best == MinOf({p[1][2] + p[2][2] : p \in {q \in du \X dv : q[1][1] = q[2][1]}}, r + 1)
        IN  DistUpTo(g, u, v, r) = IF best <= r THEN best ELSE -1
\* the sets grow with the radius and each layer is what a larger radius sees at that distance
Monotone ==
  r > 1 => \E o \in {Ord(g, Idy)} : \E W \in {WReachAll(o, r)}, X \in {WReachAll(o, r - 1)} :
    \A u \in V : /\ X[u] = {p \in W[u] : p[2] < r}
                 /\ SReach(o, u, r - 1) = {p \in SReach(o, u, r) : p[2] < r}
=============================================================================
