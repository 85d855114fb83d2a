---------------------------- MODULE MCDegeneracy ----------------------------
(***************************************************************************)
(* The degeneracy computation as it is built: buckets of exponentially      *)
(* growing width above a limit (128 in the code, small here so that both    *)
(* regimes are reached), any vertex of the smallest bucket is removed next. *)
(* (C13)                                                                    *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Limit
VARIABLES g, deg, bucket, core, corenum, order
vars == <<g, deg, bucket, core, corenum, order>>
RECURSIVE Log2Up(_)
Log2Up(x) == IF x <= 1 THEN 0 ELSE 1 + Log2Up((x + 1) \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Index(d) == Min(d, Limit) + Log2Up(Max(0, d - Limit + 1))
Init ==
  /\ g \in AllGraphs(V)
  /\ deg = [v \in V |-> Cardinality(g[v])]
  /\ bucket = [v \in V |-> Index(Cardinality(g[v]))]   \* bucket of every vertex that is still there
  /\ core = EmptyGraph /\ corenum = 0 /\ order = <<>>
Remove ==
  /\ DOMAIN bucket # {}
  /\ LET d == MinOf({bucket[v] : v \in DOMAIN bucket}, 0)
         k == Max(corenum, d)
     IN  \E v \in {x \in DOMAIN bucket : bucket[x] = d} :
           LET hit == {u \in g[v] : u \notin DOMAIN core}
               left == DOMAIN bucket \ {v}
           IN  /\ corenum' = k
               /\ core' = (v :> k) @@ core
               /\ order' = <<v>> \o order          \* reversed at the end
               /\ deg' = [x \in V |-> IF x \in hit THEN deg[x] - 1 ELSE deg[x]]
               /\ bucket' = [x \in left |-> IF x \in hit /\ Index(deg[x] - 1) # Index(deg[x]) THEN Index(deg[x] - 1) ELSE bucket[x]]
  /\ UNCHANGED g
Next == Remove
Spec == Init /\ [][Next]_vars
Done == DOMAIN bucket = {}
Lower == LET ix == Index(corenum) IN IF ix <= Limit + 1 THEN ix ELSE Limit + 1 + Pow2(ix - Limit - 2)
Upper == IF corenum <= Limit + 1 THEN corenum ELSE Limit - 1 + Pow2(corenum - Limit)
\* buckets always agree with the degrees among the remaining vertices
Buckets == \A v \in DOMAIN bucket : deg[v] = Cardinality(g[v] \cap DOMAIN bucket) /\ bucket[v] = Index(deg[v])
Result == Done =>
  \E pos \in {PosOf(order)}, cm \in {CoreMap(g)} : \E d \in {MaxOf({cm[v] : v \in V}, 0)} :
    /\ Lists(order, V)
    /\ Lower <= d /\ d <= Upper
    /\ \A v \in V : Cardinality({u \in g[v] : pos[u] < pos[v]}) <= Upper
    /\ d <= Limit => Lower = d /\ Upper = d /\ core = cm
=============================================================================
