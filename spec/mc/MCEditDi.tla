------------------------------ MODULE MCEditDi ------------------------------
(***************************************************************************)
(* EditDigraph as it is built: two adjacency maps, two degree maps and an   *)
(* arc counter, one update after the other, hash sets walked in any order,  *)
(* implements the abstract digraph (C05).                                   *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES ina, outa, ind, outd, m, todo, ret, want, d
vars == <<ina, outa, ind, outd, m, todo, ret, want, d>>
fields == <<ina, outa, ind, outd, m>>
Idle == todo = <<>>
Init == ina = EmptyGraph /\ outa = EmptyGraph /\ ind = EmptyGraph /\ outd = EmptyGraph /\ m = 0
        /\ todo = <<>> /\ ret = 0 /\ want = 0 /\ d = EmptyGraph
Without(f, u) == [x \in DOMAIN f \ {u} |-> f[x]]
Rest == Tail(todo)
DropArc(u, v) ==
  /\ outa' = [outa EXCEPT ![u] = @ \ {v}] /\ ina' = [ina EXCEPT ![v] = @ \ {u}]
  /\ outd' = [outd EXCEPT ![u] = @ - 1] /\ ind' = [ind EXCEPT ![v] = @ - 1]
  /\ m' = m - 1
Step ==
  /\ todo # <<>>
  /\ UNCHANGED <<want, d>>
  /\ LET t == todo[1] IN
     CASE t[1] = "any" ->
            /\ UNCHANGED <<fields, ret>>
            /\ IF t[2] = {} THEN todo' = Rest
               ELSE \E x \in t[2] : todo' = <<x, <<"any", t[2] \ {x}>>>> \o Rest
       [] t[1] = "addv" ->
            /\ todo' = Rest
            /\ IF t[2] \in DOMAIN outa THEN UNCHANGED <<fields, ret>>
               ELSE /\ ina' = (t[2] :> {}) @@ ina /\ outa' = (t[2] :> {}) @@ outa
                    /\ ind' = (t[2] :> 0) @@ ind /\ outd' = (t[2] :> 0) @@ outd
                    /\ UNCHANGED m /\ ret' = IF t[3] THEN ret + 1 ELSE ret
       [] t[1] = "link" ->
            /\ todo' = Rest
            /\ IF HasArc(outa, t[2], t[3]) THEN UNCHANGED <<fields, ret>>
               ELSE /\ outa' = [outa EXCEPT ![t[2]] = @ \cup {t[3]}] /\ ina' = [ina EXCEPT ![t[3]] = @ \cup {t[2]}]
                    /\ outd' = [outd EXCEPT ![t[2]] = @ + 1] /\ ind' = [ind EXCEPT ![t[3]] = @ + 1]
                    /\ m' = m + 1 /\ ret' = ret + 1
       [] t[1] = "adda" ->
            /\ UNCHANGED <<fields, ret>>
            /\ todo' = <<<<"addv", t[2], FALSE>>, <<"addv", t[3], FALSE>>, <<"link", t[2], t[3]>>>> \o Rest
       [] t[1] = "rema" ->
            /\ todo' = Rest
            /\ IF HasArc(outa, t[2], t[3]) THEN DropArc(t[2], t[3]) /\ ret' = (IF t[4] THEN ret + 1 ELSE ret)
               ELSE UNCHANGED <<fields, ret>>
       [] t[1] = "remv" ->
            /\ UNCHANGED <<fields, ret>>
            /\ todo' = IF t[2] \notin DOMAIN outa THEN Rest
                       ELSE <<<<"any", {<<"rema", t[2], v, FALSE>> : v \in outa[t[2]]}>>,
                              <<"any", {<<"rema", v, t[2], FALSE>> : v \in ina[t[2]]}>>, <<"erase", t[2]>>>> \o Rest
       [] t[1] = "erase" ->
            /\ todo' = Rest /\ ret' = ret + 1
            /\ ina' = Without(ina, t[2]) /\ outa' = Without(outa, t[2]) /\ ind' = Without(ind, t[2]) /\ outd' = Without(outd, t[2])
            /\ UNCHANGED m
Begin(steps, h, expect) == todo = <<>> /\ UNCHANGED fields /\ todo' = steps /\ d' = h /\ want' = expect /\ ret' = 0
Bool(b) == IF b THEN 1 ELSE 0
DIsolates(x) == {v \in DOMAIN x : x[v] = {} /\ InN(x, v) = {}}
Next ==
  \/ Step
  \/ \E u \in V : \/ Begin(<<<<"addv", u, TRUE>>>>, GAddVertex(d, u), Bool(u \notin DOMAIN d))
                  \/ Begin(<<<<"remv", u>>>>, DRemoveVertices(d, {u}), Bool(u \in DOMAIN d))
  \/ \E u, v \in V : \/ Begin(<<<<"adda", u, v>>>>, DAddArc(d, u, v), Bool(~HasArc(d, u, v)))
                     \/ Begin(<<<<"rema", u, v, TRUE>>>>, DRemoveArc(d, u, v), Bool(HasArc(d, u, v)))
  \/ Begin(<<<<"any", {<<"rema", u, u, TRUE>> : u \in {x \in DOMAIN outa : x \in outa[x]}}>>>>, GRemoveLoops(d), Cardinality(Loops(d)))
  \/ Begin(<<<<"any", {<<"remv", u>> : u \in {x \in DOMAIN outa : ind[x] + outd[x] = 0}}>>>>, DRemoveVertices(d, DIsolates(d)), Cardinality(DIsolates(d)))
Spec == Init /\ [][Next]_vars
Implements == Idle =>
  /\ ret = want
  /\ outa = d
  /\ ina = Transpose(d)
  /\ \A v \in DOMAIN d : d[v] \subseteq DOMAIN d
  /\ ind = [v \in DOMAIN d |-> Cardinality(ina[v])]
  /\ outd = [v \in DOMAIN d |-> Cardinality(outa[v])]
  /\ m = Cardinality(Arcs(d))
  /\ \A v \in DOMAIN d : DDegree(d, v) = ind[v] + outd[v]
  /\ IsGraph(Underlying(d))
=============================================================================
