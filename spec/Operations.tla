----------------------------- MODULE Operations -----------------------------
(* Graph operations (C09): subdivisions and products. *)
EXTENDS Graphs

(* The t-subdivision is a graph with m*t fresh vertices of degree two: from  *)
(* the end u of the edge uv exactly one fresh path leads to v.               *)
RECURSIVE Walk(_, _, _, _, _)
\* follow the path from prev over cur through fresh vertices; <<end, length>>
Walk(s, fresh, prev, cur, len) ==
  IF cur \notin fresh \/ Cardinality(s[cur]) # 2 \/ prev \notin s[cur] \/ len > Cardinality(fresh) + 1 THEN <<cur, len>>
  ELSE Walk(s, fresh, cur, CHOOSE x \in s[cur] : x # prev, len + 1)
IsSubdivision(s, g, t) ==
  LET fresh == DOMAIN s \ DOMAIN g
  IN  IF t = 0 THEN s = g
      ELSE /\ DOMAIN g \subseteq DOMAIN s
           /\ Cardinality(fresh) = t * NumEdges(g)
           /\ \A x \in fresh : Cardinality(s[x]) = 2 /\ x \notin s[x]
           /\ NumEdges(s) = (t + 1) * NumEdges(g)
           /\ \A u \in DOMAIN g :
                LET ends == {<<Walk(s, fresh, u, x, 1), x>> : x \in s[u]}
                IN  /\ s[u] \subseteq fresh
                    /\ Cardinality(s[u]) = Cardinality(g[u])
                    /\ {e[1][1] : e \in ends} = g[u]
                    /\ \A e \in ends : e[1][2] = t + 1
\* the neighbours of the pair p in the product
CartNbrs(a, b, p) == {<<p[1], y>> : y \in b[p[2]]} \cup {<<x, p[2]>> : x \in a[p[1]]}
LexiNbrs(a, b, p) == (DOMAIN a) \X b[p[2]] \cup {<<x, p[2]>> : x \in a[p[1]]}

=============================================================================
