------------------------------ MODULE MCDomset ------------------------------
(***************************************************************************)
(* Domination on ordered graphs as it is built (C20), with weakly reachable *)
(* sets as in-neighbourhoods, and on augmentations (C24), where the         *)
(* in-neighbours carry the arc weights.  The vertices are handled in any    *)
(* order (the code's is by degrees), in-neighbours in any order, and the    *)
(* cut-off that adds a vertex counted too often may be any number: the      *)
(* result dominates regardless.                                             *)
(***************************************************************************)
EXTENDS MCBase
CONSTANTS Radii, Cutoffs
VARIABLES g, r, cutoff, target,
          inn,      \* in-neighbours with distances: v -> set of <<u, d>>
          left,     \* vertices not handled yet
          todo,     \* running: stack of <<"in", v, S>>, <<"low", v, S>>
          dist, cnt, dom, scat
vars == <<g, r, cutoff, target, inn, left, todo, dist, cnt, dom, scat>>
Init ==
  /\ g \in AllGraphs(V) /\ r \in Radii /\ cutoff \in Cutoffs /\ target \in SUBSET V
  /\ inn = WReachAll(Ord(g, Idy), r)
  /\ left = V /\ todo = <<>> /\ dom = {} /\ scat = {}
  /\ dist = [v \in V |-> IF v \in target THEN r + 1 ELSE r]
  /\ cnt = [v \in V |-> 0]
Fixed == UNCHANGED <<g, r, cutoff, target, inn>>
MinWith(f, S) == [x \in V |-> MinOf({f[x]} \cup {p[2] : p \in {q \in S : q[1] = x}}, 0)]
Handle ==
  /\ todo = <<>> /\ left # {} /\ target # {}
  /\ Fixed
  /\ \E v \in left :
       LET d == MinOf({dist[v]} \cup {p[2] + dist[p[1]] : p \in inn[v]}, 0)
       IN  /\ left' = left \ {v}
           /\ IF d <= r THEN dist' = [dist EXCEPT ![v] = d] /\ UNCHANGED <<dom, scat, todo, cnt>>
              ELSE /\ dist' = [dist EXCEPT ![v] = 0]
                   /\ dom' = dom \cup {v} /\ scat' = scat \cup {v}
                   /\ todo' = <<<<v, inn[v]>>>>
                   /\ UNCHANGED cnt
\* one in-neighbour of a new member is updated
Lower ==
  /\ todo # <<>>
  /\ Fixed /\ UNCHANGED <<left, scat>>
  /\ LET v == todo[1][1]
         S == todo[1][2]
     IN  IF S = {} THEN todo' = Tail(todo) /\ UNCHANGED <<dist, cnt, dom>>
         ELSE \E p \in S :
           LET c == [cnt EXCEPT ![p[1]] = @ + 1]
               d1 == MinWith(dist, {p})
           IN  /\ cnt' = c
               /\ todo' = <<<<v, S \ {p}>>>>
               /\ IF c[p[1]] > cutoff /\ p[1] \notin dom
                  THEN /\ dom' = dom \cup {p[1]}
                       /\ dist' = MinWith([d1 EXCEPT ![p[1]] = 0], inn[p[1]])
                  ELSE dist' = d1 /\ UNCHANGED dom
Next == Handle \/ Lower
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == todo = <<>> /\ (left = {} \/ target = {})
\* a recorded distance of a handled target is never below the true one
Honest == \E L \in {Layers(g, dom, r)} : \A v \in target : dist[v] <= r => \E k \in DOMAIN L : k <= dist[v] + 1 /\ v \in L[k]
Dominated == Done => \A v \in target : dist[v] <= r
Members == scat \subseteq dom /\ scat \subseteq target /\ (Done /\ target # {} => scat # {})
Ends == <>Done
\* the auxiliary graph on the scattered vertices joins every pair at distance up to 2r: a proper colouring of it is a witness
Aux(x, ord, D, far) ==
  \E o \in {Ord(x, ord)} : \E W \in {WReachAll(o, far)} :
    \A a, b \in D : a # b /\ DistUpTo(x, a, b, far) # -1 =>
      \/ \E p \in W[a] : p[1] = b \/ \E q \in W[b] : q[1] = p[1] /\ p[2] + q[2] <= far
      \/ \E q \in W[b] : q[1] = a
WitnessGraph == Done => Aux(g, Idy, scat, 2 * r)
=============================================================================
