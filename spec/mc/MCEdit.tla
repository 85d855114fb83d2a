------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* EditGraph as it is built: adjacency sets, a degree map and an edge       *)
(* counter, one field update after the other, hash sets walked in any       *)
(* order.  Whenever no operation is running the fields are exactly the      *)
(* abstract graph of the specification and the operation reported what the  *)
(* abstract one reports (C01, C02).                                         *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES adj, degs, m,   \* the fields of the struct
          todo,           \* running operation: stack of steps; <<"any", S>> = the steps of S in any order
          ret,            \* what has been counted so far, -1 where nothing is reported
          want,           \* what must be reported
          g               \* the abstract graph after the running operation
vars == <<adj, degs, m, todo, ret, want, g>>
Idle == todo = <<>>
Init == adj = EmptyGraph /\ degs = EmptyGraph /\ m = 0 /\ todo = <<>> /\ ret = 0 /\ want = 0 /\ g = EmptyGraph

Without(f, u) == [x \in DOMAIN f \ {u} |-> f[x]]
Hit == IF ret = -1 THEN -1 ELSE ret + 1
Rest == Tail(todo)
Fields(a, d, k) == adj' = a /\ degs' = d /\ m' = k
Same == UNCHANGED <<adj, degs, m>>
\* one step of the running operation
Step ==
  /\ todo # <<>>
  /\ UNCHANGED <<want, g>>
  /\ LET t == todo[1] IN
     CASE t[1] = "any" ->
            /\ Same /\ UNCHANGED ret
            /\ IF t[2] = {} THEN todo' = Rest
               ELSE \E x \in t[2] : todo' = <<x, <<"any", t[2] \ {x}>>>> \o Rest
       [] t[1] = "addv" ->
            /\ todo' = Rest
            /\ IF t[2] \in DOMAIN adj THEN Same /\ UNCHANGED ret
               ELSE Fields((t[2] :> {}) @@ adj, (t[2] :> 0) @@ degs, m) /\ ret' = IF t[3] THEN Hit ELSE ret
       [] t[1] = "link" ->   \* both endpoints exist
            /\ todo' = Rest
            /\ IF t[3] \in adj[t[2]] THEN Same /\ UNCHANGED ret
               ELSE LET a == [adj EXCEPT ![t[2]] = @ \cup {t[3]}]
                        d == [degs EXCEPT ![t[2]] = @ + 1]
                    IN  Fields([a EXCEPT ![t[3]] = @ \cup {t[2]}], [d EXCEPT ![t[3]] = @ + 1], m + 1) /\ ret' = Hit
       [] t[1] = "adde" ->
            /\ Same /\ UNCHANGED ret
            /\ todo' = <<<<"addv", t[2], FALSE>>, <<"addv", t[3], FALSE>>, <<"link", t[2], t[3]>>>> \o Rest
       [] t[1] = "reme" ->
            /\ todo' = Rest
            /\ IF ~Adj(adj, t[2], t[3]) THEN Same /\ UNCHANGED ret
               ELSE LET a == [adj EXCEPT ![t[2]] = @ \ {t[3]}]
                        d == [degs EXCEPT ![t[2]] = @ - 1]
                    IN  Fields([a EXCEPT ![t[3]] = @ \ {t[2]}], [d EXCEPT ![t[3]] = @ - 1], m - 1) /\ ret' = Hit
       [] t[1] = "remv" ->
            /\ Same /\ UNCHANGED ret
            /\ todo' = IF t[2] \notin DOMAIN adj THEN Rest
                       ELSE <<<<"any", {<<"cut", t[2], v>> : v \in adj[t[2]]}>>, <<"erase", t[2]>>>> \o Rest
       [] t[1] = "cut" ->
            /\ todo' = Rest /\ UNCHANGED ret
            /\ Fields([adj EXCEPT ![t[3]] = @ \ {t[2]}], [degs EXCEPT ![t[3]] = @ - 1], m - 1)
       [] t[1] = "erase" ->
            /\ todo' = Rest /\ ret' = Hit
            /\ Fields(Without(adj, t[2]), Without(degs, t[2]), m)

Begin(steps, h, expect) ==
  /\ todo = <<>> /\ Same
  /\ todo' = steps /\ g' = h /\ want' = expect
  /\ ret' = IF expect = -1 THEN -1 ELSE 0
Bool(b) == IF b THEN 1 ELSE 0
AddVertex(u) == Begin(<<<<"addv", u, TRUE>>>>, GAddVertex(g, u), Bool(u \notin DOMAIN g))
RemoveVertex(u) == Begin(<<<<"remv", u>>>>, GRemoveVertices(g, {u}), Bool(u \in DOMAIN g))
AddEdge(u, v) == Begin(<<<<"adde", u, v>>>>, GAddEdge(g, u, v), Bool(~Adj(g, u, v)))
RemoveEdge(u, v) == Begin(<<<<"reme", u, v>>>>, GRemoveEdge(g, u, v), Bool(Adj(g, u, v)))
RemoveLoops == Begin(<<<<"any", {<<"reme", u, u>> : u \in {x \in DOMAIN adj : x \in adj[x]}}>>>>, GRemoveLoops(g), Cardinality(Loops(g)))
\* isolated = degree 0
RemoveIsolates == Begin(<<<<"any", {<<"remv", u>> : u \in {x \in DOMAIN adj : degs[x] = 0}}>>>>, GRemoveVertices(g, Isolates(g)), Cardinality(Isolates(g)))
ContractInto(c, S) ==
  /\ Idle /\ c \in DOMAIN g /\ S \subseteq DOMAIN g
  /\ LET T == S \ {c}
         ns == ((UNION {adj[x] : x \in T}) \ T) \ {c}
     IN  Begin(<<<<"any", {<<"adde", c, x>> : x \in ns}>>, <<"any", {<<"remv", x>> : x \in T}>>>>, GContract(g, c, S), -1)
ContractPair(u, v) ==
  /\ Idle /\ {u, v} \subseteq DOMAIN g /\ u # v
  /\ Begin(<<<<"any", {<<"adde", u, x>> : x \in adj[v] \ {u, v}}>>, <<"remv", v>>>>, GContract(g, u, {v}), -1)
Next ==
  \/ Step
  \/ \E u \in V : AddVertex(u) \/ RemoveVertex(u)
  \/ \E u, v \in V : AddEdge(u, v) \/ RemoveEdge(u, v) \/ ContractPair(u, v)
  \/ RemoveLoops \/ RemoveIsolates
  \/ \E c \in V : \E S \in SUBSET V : ContractInto(c, S)
Spec == Init /\ [][Next]_vars

Implements == Idle =>
  /\ ret = want
  /\ adj = g
  /\ IsGraph(g)
  /\ degs = [v \in DOMAIN g |-> Degree(g, v)]
  /\ m = NumEdges(g)
\* in the middle of an operation the fields are still symmetric up to the vertex being removed
Counted == \A v \in DOMAIN adj : degs[v] >= 0
=============================================================================
