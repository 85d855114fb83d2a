---------------------------- MODULE MCScattered -----------------------------
(***************************************************************************)
(* Scattered colouring as it is built (C21), after the rounds that split    *)
(* the target into classes: classes are merged while every pair of them is  *)
(* far enough apart, decided by the weakly reachable sets; a class that     *)
(* cannot grow is set aside.  Any starting partition into scattered classes *)
(* and any merging order.                                                   *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Ds
VARIABLES g, d, target, W, classes, done
vars == <<g, d, target, W, classes, done>>
Far(x, S, dd) == \A a, b \in S : a # b => DistUpTo(x, a, b, dd - 1) = -1
Init ==
  /\ g \in AllGraphs(V) /\ d \in Ds /\ target \in SUBSET V
  /\ W = WReachAll(Ord(g, Idy), d)
  /\ classes = {{v} : v \in target}
  /\ done = {}
Small(x, y) ==   \* d + 1 if there is no short connection
  MinOf({p[2] : p \in {q \in W[x] : q[1] = y}} \cup {p[2] : p \in {q \in W[y] : q[1] = x}}
        \cup {pq[1][2] + pq[2][2] : pq \in {z \in W[x] \X W[y] : z[1][1] = z[2][1]}}, d + 1)
Apart(A, B) == \A a \in A, b \in B : Small(a, b) >= d
Merge == \E A, B \in classes :
  /\ A # B /\ Apart(A, B)
  /\ classes' = (classes \ {A, B}) \cup {A \cup B}
  /\ UNCHANGED <<g, d, target, W, done>>
SetAside == \E A \in classes :
  /\ classes' = classes \ {A} /\ done' = done \cup {A}
  /\ UNCHANGED <<g, d, target, W>>
Next == Merge \/ SetAside
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result ==
  LET all == classes \cup done
  IN  /\ UNION all = target
      /\ \A A \in all : A # {} /\ (d >= 1 => Far(g, A, d))
      /\ \A A, B \in all : A = B \/ A \cap B = {}
Ends == <>(classes = {})
=============================================================================
