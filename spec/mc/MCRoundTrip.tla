---------------------------- MODULE MCRoundTrip -----------------------------
(***************************************************************************)
(* Writing and reading back (C26): the writer emits one line per edge, in   *)
(* any order and with either end first; the parser returns exactly these    *)
(* edges, so the graph comes back without its isolated vertices.            *)
(***************************************************************************)
EXTENDS MCBase, TextFormat
VARIABLES g, left, text
vars == <<g, left, text>>
\* one to ten digits, the largest id included (TLC numbers stop below it, so ids are digit sequences)
Ids == <<<<0>>, <<9>>, <<1, 0>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>>>
DigitsOf(k) == Ids[k + 1]
Ascii(d) == [i \in DOMAIN d |-> d[i] + 48]
Init == g \in AllLoopGraphs(V) /\ left = Edges(g) /\ text = <<>>
Write ==
  /\ \E e \in left : \E flip \in BOOLEAN :
       /\ left' = left \ {e}
       /\ LET u == IF flip THEN e[2] ELSE e[1]
              v == IF flip THEN e[1] ELSE e[2]
          IN  text' = text \o Ascii(DigitsOf(u)) \o <<32>> \o Ascii(DigitsOf(v)) \o <<LF>>
  /\ UNCHANGED g
Next == Write
Spec == Init /\ [][Next]_vars
Written == Edges(g) \ left
\* at every moment, what has been written is a readable file of the edges written so far
Reads ==
  LET p == ParseGraph(text)
  IN  /\ p.ok
      /\ Len(p.val) = Cardinality(Written)
      /\ Range(p.val) = {<<DigitsOf(e[1]), DigitsOf(e[2])>> : e \in Written}
=============================================================================
