------------------------------ MODULE Families ------------------------------
(* The named graph families (C04): vertex counts and arcs. *)
EXTENDS Graphs

RECURSIVE SumSeq(_)
SumSeq(p) == IF p = <<>> THEN 0 ELSE p[1] + SumSeq(Tail(p))
PartOf(p, v) == CHOOSE i \in DOMAIN p : SumSeq(SubSeq(p, 1, i - 1)) <= v /\ v < SumSeq(SubSeq(p, 1, i))
GenN(name, p) ==
  CASE name \in {"path", "cycle", "clique", "independent"} -> p[1]
    [] name = "matching" -> 2 * p[1]
    [] name = "star" -> p[1] + 1
    [] name = "biclique" -> p[1] + p[2]
    [] name = "grid" -> p[1] * p[2]
    [] name = "kpartite" -> SumSeq(p)
GenArcs(name, p) ==
  LET n == GenN(name, p)
      V == 0..(n - 1)
      up == {a \in V \X V : a[1] < a[2]}
  IN  CASE name = "path" -> {<<i, i + 1>> : i \in 0..(n - 2)}
        [] name = "cycle" -> {<<i, (i + 1) % n>> : i \in V}
        [] name = "matching" -> {<<i, i + p[1]>> : i \in 0..(p[1] - 1)}
        [] name = "star" -> {<<0, i>> : i \in 1..p[1]}
        [] name = "clique" -> up
        [] name = "independent" -> {}
        [] name = "biclique" -> (0..(p[1] - 1)) \X (p[1]..(n - 1))
        \* p[1] rows of p[2] vertices
        [] name = "grid" -> {<<i, i + 1>> : i \in {x \in V : x % p[2] # p[2] - 1}} \cup {<<i, i + p[2]>> : i \in {x \in V : x + p[2] < n}}
        [] name = "kpartite" -> LET part == TLCEval([v \in V |-> PartOf(p, v)]) IN {a \in up : part[a[1]] # part[a[2]]}

=============================================================================
