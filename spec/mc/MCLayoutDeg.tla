---------------------------- MODULE MCLayoutDeg -----------------------------
(***************************************************************************)
(* The buffer of a degeneracy representation (C15): per vertex the cells    *)
(* | u | next | k | k left neighbours |, next pointing to the record of the *)
(* following vertex and to itself at the end.  It is built record by        *)
(* record, read through the links, and renamed in place record by record.   *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, ord, buf, at, done, last, right, m, pc, i, ix, ren
vars == <<g, ord, buf, at, done, last, right, m, pc, i, ix, ren>>
none == -1
Get(b, j) == b[j + 1]
Set(b, j, x) == [b EXCEPT ![j + 1] = x]
\* any graph on a set of vertex numbers with gaps, under any order
Ids == {2 * v + 1 : v \in V}
SortBy(S, pos) == [k \in 1..Cardinality(S) |-> CHOOSE v \in S : Cardinality({x \in S : pos[x] < pos[v]}) = k - 1]
Init ==
  /\ g \in AllGraphs(Ids)
  /\ ord \in Perms(Ids)
  /\ buf = <<>> /\ at = <<>> /\ done = 0 /\ last = none /\ right = [v \in Ids |-> {}] /\ m = 0
  /\ pc = "build" /\ i = 0 /\ ix = 0 /\ ren = <<>>
LeftOf(v) == LET pos == PosOf(ord) IN {u \in g[v] : pos[u] < pos[v]}
Append1 ==
  /\ pc = "build" /\ done < N
  /\ LET u == ord[done + 1]
         L == SortBy(LeftOf(u), PosOf(ord))
         iu == Len(buf)
         linked == IF last = none THEN buf ELSE Set(buf, last + 1, iu)
     IN  /\ buf' = linked \o <<u, iu, Len(L)>> \o L
         /\ at' = at @@ (u :> iu)
         /\ right' = [v \in Ids |-> IF v \in Range(L) THEN right[v] \cup {u} ELSE right[v]]
         /\ m' = m + Len(L)
         /\ last' = iu
  /\ done' = done + 1
  /\ UNCHANGED <<g, ord, pc, i, ix, ren>>
\* renaming in place follows the links
Start == pc = "build" /\ done = N /\ pc' = "rename" /\ UNCHANGED <<g, ord, buf, at, done, last, right, m, i, ix, ren>>
Rename1 ==
  /\ pc = "rename"
  /\ LET u == Get(buf, i)
         next == Get(buf, i + 1)
         k == Get(buf, i + 2)
         r2 == ren @@ (u :> ix)
         S == {r2[Get(buf, i + 2 + j)] : j \in 1..k}
         L == SortBy(S, [x \in S |-> x])
     IN  /\ buf' = [j \in 1..Len(buf) |-> IF j = i + 1 THEN ix ELSE IF j > i + 3 /\ j <= i + 3 + k THEN L[j - i - 3] ELSE buf[j]]
         /\ ren' = r2
         /\ IF next = i THEN pc' = "done" /\ UNCHANGED <<i, ix>> ELSE pc' = pc /\ i' = next /\ ix' = ix + 1
  /\ UNCHANGED <<g, ord, at, done, last, right, m>>
Next == Append1 \/ Start \/ Rename1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
RECURSIVE Read(_, _)
\* the records met when following the links from cell j: <<vertex, left neighbours>>
Read(b, j) ==
  LET rec == <<Get(b, j), SubSeq(b, j + 4, j + 3 + Get(b, j + 2))>>
  IN  IF Get(b, j + 1) = j THEN <<rec>> ELSE <<rec>> \o Read(b, Get(b, j + 1))
Built(b) == [k \in 1..done |-> <<ord[k], SortBy(LeftOf(ord[k]), PosOf(ord))>>]
Records == pc = "build" /\ done > 0 => Read(buf, 0) = Built(buf)
Index == \A v \in DOMAIN at : pc = "build" => Get(buf, at[v]) = v
Totals == pc = "build" /\ done = N =>
  /\ m = NumEdges(g)
  /\ \A v \in Ids : right[v] = g[v] \ LeftOf(v)
Renamed == pc = "done" =>
  /\ ren = [v \in Ids |-> PosOf(ord)[v] - 1]
  /\ Read(buf, 0) = [k \in 1..N |-> <<k - 1, LET S == {ren[x] : x \in LeftOf(ord[k])} IN SortBy(S, [x \in S |-> x])>>]
  /\ MkGraph({ren[v] : v \in Ids}, UNION {{<<rec[1], rec[2][j]>> : j \in DOMAIN rec[2]} : rec \in Range(Read(buf, 0))})
       = [x \in 0..(N - 1) |-> {ren[y] : y \in g[ord[x + 1]]}]
Ends == <>(pc = "done")
=============================================================================
