------------------------------- MODULE MCGen --------------------------------
(***************************************************************************)
(* The loops that build the named families (C04), edge by edge, against the *)
(* closed definitions in Families and against counting formulas.            *)
(***************************************************************************)
EXTENDS Families
CONSTANT Size
VARIABLES name, p, g, x, y, pc
vars == <<name, p, g, x, y, pc>>
\* parameters: one number, two numbers, or a list of part sizes
Params == {<<nm, <<a>>>> : nm \in {"path", "cycle", "matching", "star", "clique", "independent"}, a \in 1..Size}
     \cup {<<nm, <<a, b>>>> : nm \in {"biclique", "grid"}, a \in 1..Size, b \in 1..Size}
     \cup {<<"kpartite", <<a, b, c>>>> : a \in 0..3, b \in 0..3, c \in 1..3}
Init == /\ \E q \in Params : name = q[1] /\ p = q[2]
        /\ g = EmptyGraph /\ x = 0 /\ y = 0 /\ pc = "go"
n == GenN(name, p)
Edge(u, v) == g' = GAddEdge(g, u, v)
Vertex(u) == g' = GAddVertex(g, u)
Skip == g' = g
\* one pass of the loops; x is the outer and y the inner counter
Stop == pc' = "done" /\ UNCHANGED <<x, y>>
Nx == x' = x + 1 /\ y' = 0 /\ pc' = pc
Ny == y' = y + 1 /\ x' = x /\ pc' = pc
PartStart(i) == SumSeq(SubSeq(p, 1, i - 1))
Go ==
  /\ pc = "go"
  /\ CASE name = "path" -> IF n = 1 THEN Vertex(0) /\ Stop ELSE IF x < n - 1 THEN Edge(x, x + 1) /\ Nx ELSE Skip /\ Stop
       [] name = "cycle" -> IF x < n THEN Edge(x, (x + 1) % n) /\ Nx ELSE Skip /\ Stop
       [] name = "matching" -> IF x < p[1] THEN Edge(x, x + p[1]) /\ Nx ELSE Skip /\ Stop
       [] name = "star" -> IF x < p[1] THEN Edge(0, x + 1) /\ Nx ELSE Skip /\ Stop
       [] name = "independent" -> IF x < n THEN Vertex(x) /\ Nx ELSE Skip /\ Stop
       [] name = "clique" -> IF x >= n THEN Skip /\ Stop
                             ELSE IF y = 0 THEN Vertex(x) /\ Ny
                             ELSE IF x + y < n THEN Edge(x, x + y) /\ Ny ELSE Skip /\ Nx
       [] name = "biclique" -> IF x < p[1] THEN (IF y < p[2] THEN Edge(x, p[1] + y) /\ Ny ELSE Skip /\ Nx) ELSE Skip /\ Stop
       [] name = "grid" ->
            IF x >= p[1] THEN Skip /\ Stop
            ELSE IF y >= p[2] THEN Skip /\ Nx
            ELSE LET u == x * p[2] + y
                     right == y < p[2] - 1
                     down == x < p[1] - 1
                     g0 == GAddVertex(g, u)
                     g1 == IF right THEN GAddEdge(g0, u, u + 1) ELSE g0
                 IN  g' = (IF down THEN GAddEdge(g1, u, u + p[2]) ELSE g1) /\ Ny
       \* x counts pairs of vertices of different parts in row-major order
       [] name = "kpartite" ->
            IF x >= n THEN Skip /\ Stop
            ELSE IF y = 0 THEN Vertex(x) /\ Ny
            ELSE IF x + y >= n THEN Skip /\ Nx
            ELSE (IF \E i \in DOMAIN p : x < PartStart(i) /\ x + y >= PartStart(i) THEN Edge(x, x + y) ELSE Skip) /\ Ny
  /\ UNCHANGED <<name, p>>
Next == Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Built == pc = "done" => g = GAddEdges(GAddVertices(EmptyGraph, 0..(n - 1)), GenArcs(name, p))
NoLoops == name # "cycle" \/ p[1] > 1 => LoopFree(g)
Degs(D) == \A v \in DOMAIN g : Cardinality(g[v]) \in D
m == NumEdges(g)
Counts == pc = "done" =>
  CASE name = "path" -> m = n - 1 /\ Degs({0, 1, 2}) /\ Components(g) = {DOMAIN g}
    [] name = "cycle" -> (n >= 3 => m = n /\ Degs({2}) /\ Components(g) = {DOMAIN g}) /\ (n \in {1, 2} => m = 1)
    [] name = "matching" -> m = p[1] /\ Degs({1})
    [] name = "star" -> m = p[1] /\ Cardinality(g[0]) = p[1]
    [] name = "clique" -> 2 * m = n * (n - 1)
    [] name = "independent" -> m = 0
    [] name = "biclique" -> m = p[1] * p[2] /\ IsBipartition(g, 0..(p[1] - 1), p[1]..(n - 1))
    [] name = "grid" -> m = p[1] * (p[2] - 1) + (p[1] - 1) * p[2] /\ Components(g) = {DOMAIN g}
    [] name = "kpartite" -> m = p[1] * p[2] + p[1] * p[3] + p[2] * p[3]
Ends == <>(pc = "done")
=============================================================================
