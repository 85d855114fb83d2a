--------------------------- MODULE MCLayoutReach ----------------------------
(***************************************************************************)
(* The buffer of a reach graph (C17): per vertex the cells                  *)
(* | u | next | end_1 | ... | end_r | distance 1 | ... | distance r |,      *)
(* where end_i is the cell after the segment of distance i.  The boundary   *)
(* cells are pushed one by one while the sorted neighbours are scanned.     *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT R
VARIABLES g, weak, sets, buf, at, done, last, cur, scan, rdeg, edges
vars == <<g, weak, sets, buf, at, done, last, cur, scan, rdeg, edges>>
none == -1
Get(b, j) == b[j + 1]
Set(b, j, x) == [b EXCEPT ![j + 1] = x]
Ids == {2 * v + 1 : v \in V}
RefOrd == [k \in 1..N |-> 2 * (N - k) + 1]
Pos == PosOf(RefOrd)
\* pairs <<vertex, distance>> sorted by distance, then position
Before(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ Pos[p[1]] < Pos[q[1]])
Sorted(S) == [k \in 1..Cardinality(S) |-> CHOOSE p \in S : Cardinality({q \in S : Before(q, p)}) = k - 1]
Init ==
  /\ g \in AllGraphs(Ids)
  /\ weak \in BOOLEAN
  /\ sets = IF weak THEN WReachAll(Ord(g, RefOrd), R) ELSE [u \in Ids |-> SReach(Ord(g, RefOrd), u, R)]
  /\ buf = <<>> /\ at = <<>> /\ done = 0 /\ last = none /\ cur = none /\ scan = <<>>
  /\ rdeg = [v \in Ids |-> 0] /\ edges = {}
Fixed == UNCHANGED <<g, weak, sets>>
Begin ==
  /\ cur = none /\ done < N
  /\ LET u == RefOrd[done + 1]
         iu == Len(buf)
         linked == IF last = none THEN buf ELSE Set(buf, last + 1, iu)
         near == {p[1] : p \in {q \in sets[u] : q[2] = 1}}
     IN  /\ buf' = linked \o <<u, iu>>
         /\ at' = at @@ (u :> iu)
         /\ last' = iu /\ cur' = u
         \* offset of the scanned neighbour, current distance
         /\ scan' = <<0, 1>>
         /\ rdeg' = [v \in Ids |-> IF v \in near THEN rdeg[v] + 1 ELSE rdeg[v]]
         /\ edges' = edges \cup {Pair(<<u, v>>) : v \in near}
  /\ Fixed /\ UNCHANGED done
\* one boundary cell, or one neighbour further; the guard at the end has distance R + 1
Scan ==
  /\ cur # none
  /\ LET L == Sorted(sets[cur])
         off == scan[1]
         d == IF off = Len(L) THEN R + 1 ELSE L[off + 1][2]
         base == last + R + 2
     IN  IF scan[2] < d THEN buf' = Append(buf, base + off) /\ scan' = <<off, scan[2] + 1>> /\ UNCHANGED <<cur, done>>
         ELSE IF off < Len(L) THEN scan' = <<off + 1, scan[2]>> /\ UNCHANGED <<buf, cur, done>>
         ELSE /\ buf' = buf \o [k \in 1..Len(L) |-> L[k][1]]
              /\ cur' = none /\ done' = done + 1 /\ UNCHANGED scan
  /\ Fixed /\ UNCHANGED <<at, last, rdeg, edges>>
Next == Begin \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
Segment(b, j, d) ==
  LET from == IF d = 1 THEN j + R + 2 ELSE Get(b, j + d)
      to == Get(b, j + d + 1)
  IN  SubSeq(b, from + 1, to)
RECURSIVE Read(_, _)
Read(b, j) ==
  LET rec == <<Get(b, j), [d \in 1..R |-> Segment(b, j, d)]>>
  IN  IF Get(b, j + 1) = j THEN <<rec>> ELSE <<rec>> \o Read(b, Get(b, j + 1))
Want(u) == [d \in 1..R |-> LET L == Sorted({p \in sets[u] : p[2] = d}) IN [k \in DOMAIN L |-> L[k][1]]]
Records == cur = none /\ done > 0 => Read(buf, 0) = [k \in 1..done |-> <<RefOrd[k], Want(RefOrd[k])>>]
Whole == cur = none => \A u \in DOMAIN at : SubSeq(buf, at[u] + R + 3, Get(buf, at[u] + R + 1)) = Concat(Want(u))
Totals == cur = none /\ done = N =>
  /\ edges = Edges(g)
  /\ \A v \in Ids : rdeg[v] + Cardinality({u \in g[v] : Pos[u] < Pos[v]}) = Cardinality(g[v])
Ends == <>(done = N /\ cur = none)
=============================================================================
