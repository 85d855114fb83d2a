---------------------------- MODULE MCColouring -----------------------------
(***************************************************************************)
(* Vertex colourings (C28) as partial maps under inserts and disjoint       *)
(* extension: the extension keeps every old entry, shifts the new ones      *)
(* above every old colour, entry by entry in any order, and separates the   *)
(* old classes from the new ones.  Plus the laws of vertices and edges as   *)
(* mixed elements.                                                          *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, C
VARIABLES old, other, res, left, off
vars == <<old, other, res, left, off>>
V == 0..(N - 1)
Cols == 0..(C - 1)
Maps == UNION {[S -> Cols] : S \in SUBSET V}
Init ==
  /\ old \in Maps /\ other \in Maps
  /\ res = old /\ left = DOMAIN other
  /\ off = (IF DOMAIN old = {} THEN 0 ELSE MaxOf({old[v] : v \in DOMAIN old}, 0) + 1)
Entry(v) == res' = IF v \in DOMAIN res THEN res ELSE (v :> other[v] + off) @@ res
Next == \E v \in left : Entry(v) /\ left' = left \ {v} /\ UNCHANGED <<old, other, off>>
Spec == Init /\ [][Next]_vars
New == DOMAIN res \ DOMAIN old
Keeps == \A v \in DOMAIN old : res[v] = old[v]
Total == left = {} => DOMAIN res = DOMAIN old \cup DOMAIN other
Separate == \A u \in DOMAIN old, v \in New : res[u] # res[v]
SameClasses == \A u, v \in New : (res[u] = res[v]) = (other[u] = other[v])
\* inverting gives the classes: a partition of the domain, and back
Classes(c) == [x \in {c[v] : v \in DOMAIN c} |-> {v \in DOMAIN c : c[v] = x}]
Inverse ==
  \E K \in {Classes(res)} :
    /\ UNION {K[x] : x \in DOMAIN K} = DOMAIN res
    /\ \A x, y \in DOMAIN K : K[x] # {} /\ (x = y \/ K[x] \cap K[y] = {})
    /\ [v \in DOMAIN res |-> CHOOSE x \in DOMAIN K : v \in K[x]] = res
\* a majority class exists and is largest
Majority == DOMAIN res # {} => \E x \in DOMAIN Classes(res) : \A y \in DOMAIN Classes(res) : Cardinality(Classes(res)[y]) <= Cardinality(Classes(res)[x])
\* colourings from a list of sets: the last set wins
RECURSIVE FromSets(_, _, _)
FromSets(ss, k, c) == IF k > Len(ss) THEN c ELSE FromSets(ss, k + 1, [v \in ss[k] |-> k - 1] @@ c)
LastWins == LET ss == [k \in 1..C |-> {v \in DOMAIN other : other[v] = k - 1} \cup {v \in DOMAIN old : old[v] = k - 1}]
                c == FromSets(ss, 1, <<>>)
            IN  c = [v \in UNION Range(ss) |-> MaxOf({k \in 1..C : v \in ss[k]}, 0) - 1]
=============================================================================
