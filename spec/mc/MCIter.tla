------------------------------- MODULE MCIter -------------------------------
(***************************************************************************)
(* The edge and the mixed iterator as they are built: an outer walk over    *)
(* the vertices, an inner one over the current neighbourhood, a look-ahead  *)
(* step when one is exhausted; vertices and neighbours in any order.        *)
(* Everything is yielded exactly once and with the smaller endpoint first,  *)
(* from any point the rest is still to come, and the end is final (C08).    *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Directed    \* TRUE: the arc iterator of a digraph
VARIABLES g,
          outer,     \* vertices not visited yet
          cur,       \* <<v>> or <<>>
          inner,     \* neighbours of cur not visited yet
          retv,      \* has the current vertex been returned? (mixed iterator)
          mixed,     \* which iterator
          out        \* what was yielded, in order: <<u>> or <<u, v>>
vars == <<g, outer, cur, inner, retv, mixed, out>>
Advance ==   \* the look-ahead
  IF outer = {} THEN cur' = <<>> /\ inner' = {} /\ UNCHANGED outer
  ELSE \E v \in outer : cur' = <<v>> /\ inner' = g[v] /\ outer' = outer \ {v}
Init ==
  /\ g \in IF Directed THEN AllDigraphs(V) ELSE AllLoopGraphs(V)
  /\ mixed \in IF Directed THEN {FALSE} ELSE BOOLEAN
  /\ retv = FALSE /\ out = <<>>
  \* the constructor advances once
  /\ \/ DOMAIN g = {} /\ outer = {} /\ cur = <<>> /\ inner = {}
     \/ \E v \in DOMAIN g : cur = <<v>> /\ inner = g[v] /\ outer = DOMAIN g \ {v}
\* one round of the loop inside next()
Round ==
  /\ cur # <<>>
  /\ UNCHANGED <<g, mixed>>
  /\ IF mixed /\ ~retv
     THEN retv' = TRUE /\ out' = Append(out, cur) /\ UNCHANGED <<outer, cur, inner>>
     ELSE IF inner = {} THEN Advance /\ retv' = FALSE /\ UNCHANGED out
     ELSE \E u \in inner :
            /\ inner' = inner \ {u}
            /\ UNCHANGED <<outer, cur, retv>>
            /\ out' = IF Directed \/ cur[1] <= u THEN Append(out, <<cur[1], u>>) ELSE out
Next == Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == (IF Directed THEN Arcs(g) ELSE Edges(g)) \cup (IF mixed THEN {<<v>> : v \in DOMAIN g} ELSE {})
Sound == Distinct(out) /\ Range(out) \subseteq All
Complete == cur = <<>> => Range(out) = All
Ends == <>(cur = <<>>)
Final == [][cur = <<>> => UNCHANGED out]_vars
=============================================================================
