---------------------------- MODULE MCBipartite -----------------------------
(***************************************************************************)
(* The bipartiteness test as it is built: depth-first colouring with a      *)
(* stack, parents, and the extraction of an odd cycle from two paths to the *)
(* root.  Roots and neighbours come in any order (C12).                     *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, todo, stack, col, par, conflict, pc
vars == <<g, todo, stack, col, par, conflict, pc>>
\* stack items: <<"one", colour, v, parent>>, or <<"any", colour, S, parent>>: the vertices of S, pushed in some order
Init ==
  /\ g \in AllLoopGraphs(V)
  /\ todo = DOMAIN g /\ stack = <<>> /\ col = EmptyGraph /\ par = EmptyGraph /\ conflict = <<>> /\ pc = "root"
Root ==
  /\ pc = "root"
  /\ IF todo = {} \/ conflict # <<>> THEN pc' = "done" /\ UNCHANGED <<todo, stack>>
     ELSE \E u \in todo : todo' = todo \ {u} /\ stack' = <<<<"any", TRUE, {u}, u>>>> /\ pc' = "visit"
  /\ UNCHANGED <<g, col, par, conflict>>
\* the top of the stack is its first element
Visit ==
  /\ pc = "visit"
  /\ UNCHANGED g
  /\ IF stack = <<>> THEN pc' = "root" /\ UNCHANGED <<todo, stack, col, par, conflict>>
     ELSE LET t == stack[1] IN
       IF t[3] = {} THEN stack' = Tail(stack) /\ UNCHANGED <<todo, col, par, conflict, pc>>
       ELSE \E v \in t[3] :
         LET rest == <<<<"any", t[2], t[3] \ {v}, t[4]>>>> \o Tail(stack) IN
         IF v \in DOMAIN col
         THEN IF col[v] # t[2]
              THEN conflict' = <<t[4], v, par[v]>> /\ pc' = "root" /\ stack' = <<>> /\ UNCHANGED <<todo, col, par>>
              ELSE stack' = rest /\ todo' = todo \ {v} /\ UNCHANGED <<col, par, conflict, pc>>
         ELSE /\ col' = (v :> t[2]) @@ col
              /\ par' = (v :> t[4]) @@ par
              /\ stack' = <<<<"any", ~t[2], g[v], v>>>> \o rest
              /\ todo' = todo \ {v}
              /\ UNCHANGED <<conflict, pc>>
Next == Root \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE PathFrom(_, _)
PathFrom(p, s) == LET l == s[Len(s)] IN IF p[l] = l THEN s ELSE PathFrom(p, Append(s, p[l]))
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* position of x in s from index 2 on, 0 if it is not there
PosFrom2(s, x) == LET I == {i \in 2..Len(s) : s[i] = x} IN MinOf(I, 0)
Cycle ==
  LET p1 == conflict[1]
      v == conflict[2]
      p2 == conflict[3]
      path1 == PathFrom(par, <<v, p1>>)
      path2 == PathFrom(par, <<p2>>)
      i == PosFrom2(path1, v)
  IN  IF i > 0 THEN SubSeq(path1, 1, i - 1)
      ELSE IF Len(path1) > 1 /\ path1[1] = path1[Len(path1)] THEN SubSeq(path1, 1, Len(path1) - 1)
      ELSE IF Len(path2) > 1 /\ path2[1] = path2[Len(path2)] THEN SubSeq(path2, 1, Len(path2) - 1)
      ELSE path1 \o Reverse(SubSeq(path2, 1, Len(path2) - 1))
Done == pc = "done"
RootsAgree == conflict # <<>> => LET a == PathFrom(par, <<conflict[2], conflict[1]>>) b == PathFrom(par, <<conflict[3]>>) IN a[Len(a)] = b[Len(b)]
Witness ==
  Done => IF conflict # <<>> THEN IsOddCycle(g, Cycle)
          ELSE IsBipartition(g, {v \in DOMAIN col : col[v]}, {v \in DOMAIN col : ~col[v]})
\* the parents form a forest of the graph, colours alternate along it
Forest == \A v \in DOMAIN par : par[v] = v \/ (par[v] \in g[v] /\ col[par[v]] # col[v])
Ends == <>Done
=============================================================================
