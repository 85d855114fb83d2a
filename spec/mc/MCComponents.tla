---------------------------- MODULE MCComponents ----------------------------
(***************************************************************************)
(* Components by merging classes along the edges in any order (C11), and    *)
(* breadth-first search layer by layer (C07): the classes are always the    *)
(* components of the edges seen so far.                                     *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES g, left, cls, src, seen, front, round
vars == <<g, left, cls, src, seen, front, round>>
Init ==
  /\ \E U \in {AllSubGraphs(V)} : g \in U
  /\ left = Edges(g) /\ cls = {{v} : v \in DOMAIN g}
  /\ src \in SUBSET DOMAIN g /\ Cardinality(src) <= 2
  /\ seen = src /\ front = src /\ round = 0
Of1(v) == CHOOSE c \in cls : v \in c
Merge ==
  /\ \E e \in left :
       /\ left' = left \ {e}
       /\ LET a == Of1(e[1])
              b == Of1(e[2])
          IN  cls' = (cls \ {a, b}) \cup {a \cup b}
  /\ UNCHANGED <<g, src, seen, front, round>>
Grow ==
  /\ front # {} /\ left = {}
  /\ LET nxt == Nbrs(g, front) \ seen IN seen' = seen \cup nxt /\ front' = nxt
  /\ round' = round + 1
  /\ UNCHANGED <<g, left, cls, src>>
Next == Merge \/ Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Now == cls = Components(MkGraph(DOMAIN g, Edges(g) \ left))
Balls == seen = Ball(g, src, round)
Layering == \A v \in front : \E s \in src : DistUpTo(g, s, v, round) = round \/ round = 0
Joined == front = {} /\ left = {} => seen = UNION {c \in cls : c \cap src # {}}
Ends == <>(left = {} /\ front = {})
\* subgraph comparison is a partial order and intersections and unions bound it
Cmp == left = {} /\ round = 0 => LET h == MkGraph({0, 1}, {<<0, 1>>}) IN
  /\ (IsSubgraph(g, h) /\ IsSubgraph(h, g)) = (g = h)
  /\ IsSubgraph(Induced(g, src), g)
  /\ (IsSubgraph(h, g) => IsSubgraph(h, GUnion(g, h)))
=============================================================================
