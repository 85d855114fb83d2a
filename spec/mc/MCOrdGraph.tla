----------------------------- MODULE MCOrdGraph -----------------------------
(***************************************************************************)
(* OrdGraph as it is built: an array of nodes with left and right neighbour *)
(* sets and an index map; swap moves the two vertices and updates the sets  *)
(* of the vertices between them.  Implements the abstract ordered graph     *)
(* under every sequence of swaps (C14).                                     *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES nodes,   \* sequence of [v, left, right]
          idx,     \* vertex -> position (1-based)
          g, ord   \* the abstract ordered graph
vars == <<nodes, idx, g, ord>>

Build(h, p) == [i \in DOMAIN p |-> [v |-> p[i], left |-> {u \in h[p[i]] : PosOf(p)[u] < i}, right |-> {u \in h[p[i]] : PosOf(p)[u] > i}]]
Init ==
  /\ g \in AllGraphs(V)
  /\ ord \in Perms(V)
  /\ nodes = Build(g, ord)
  /\ idx = PosOf(ord)

\* s moves from position old to position new
MoveNode(ns, s, old, new) ==
  LET n == ns[old]
      nb == n.left \cup n.right
      at(x) == IF idx[x] = new THEN old ELSE idx[x]
      n2 == [n EXCEPT !.left = {x \in nb : at(x) < new}, !.right = {x \in nb : ~(at(x) < new)}]
      ns2 == [ns EXCEPT ![old] = n2]
  IN  [i \in DOMAIN ns2 |->
         IF i \in {idx[x] : x \in nb}
         THEN IF new > i /\ s \in ns2[i].left THEN [ns2[i] EXCEPT !.left = @ \ {s}, !.right = @ \cup {s}]
              ELSE IF new < i /\ s \in ns2[i].right THEN [ns2[i] EXCEPT !.right = @ \ {s}, !.left = @ \cup {s}]
              ELSE ns2[i]
         ELSE ns2[i]]
Swap(u, v) ==
  /\ IF u = v THEN UNCHANGED <<nodes, idx>>
     ELSE LET iu == idx[u]
              iv == idx[v]
              n1 == MoveNode(nodes, u, iu, iv)
              n2 == MoveNode(n1, v, iv, iu)
          IN  /\ nodes' = [n2 EXCEPT ![iu] = n2[iv], ![iv] = n2[iu]]
              /\ idx' = [idx EXCEPT ![u] = iv, ![v] = iu]
  /\ ord' = SwapSeq(ord, PosOf(ord)[u], PosOf(ord)[v])
  /\ UNCHANGED g
Next == \E u, v \in V : Swap(u, v)
Spec == Init /\ [][Next]_vars
Implements ==
  LET o == Ord(g, ord)
  IN  /\ idx = o.pos
      /\ \A i \in DOMAIN ord : nodes[i] = [v |-> ord[i], left |-> Left(o, ord[i]), right |-> Right(o, ord[i])]
=============================================================================
