------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* The file grammar (C26, C27) against a one-pass automaton that reads byte *)
(* by byte and keeps only the current line's tokens: every byte sequence is *)
(* either a graph or an error, and both readings agree.  The largest id is  *)
(* scaled down (Small) so that overflow is within reach.                    *)
(***************************************************************************)
EXTENDS TextFormat
CONSTANTS Bytes, MaxLen
VARIABLES input, ok, out, toks, num, lead, dirty
vars == <<input, ok, out, toks, num, lead, dirty>>
none == -1
plus == -2
bad == -3
Small == <<1, 2>>
Limit == 12
\* num: none between tokens, plus after a leading sign, bad, or the value so far
Init == input = <<>> /\ ok = TRUE /\ out = <<>> /\ toks = <<>> /\ num = none /\ lead = FALSE /\ dirty = FALSE
Digit(b) == b >= 48 /\ b <= 57
Push(b) ==   \* one byte of a token
  IF num = none THEN (IF b = 43 THEN plus ELSE IF Digit(b) THEN b - 48 ELSE bad)
  ELSE IF num = plus THEN (IF Digit(b) THEN b - 48 ELSE bad)
  ELSE IF num = bad \/ ~Digit(b) THEN bad
  ELSE LET x == 10 * num + b - 48 IN IF x > Limit THEN bad ELSE x
Closed == IF num = none THEN toks ELSE Append(toks, IF num = plus THEN bad ELSE num)
LineOk(t) == Len(t) = 2 /\ t[1] # bad /\ t[2] # bad
EndLine ==
  LET t == Closed
  IN  IF LineOk(t) /\ ~lead THEN out' = Append(out, IF t[1] <= t[2] THEN <<t[1], t[2]>> ELSE <<t[2], t[1]>>) /\ UNCHANGED ok
      ELSE ok' = FALSE /\ UNCHANGED out
Reset == toks' = <<>> /\ num' = none /\ lead' = FALSE /\ dirty' = FALSE
Step(b) ==
  IF b = LF THEN EndLine /\ Reset
  ELSE /\ dirty' = TRUE /\ UNCHANGED out
       /\ IF lead THEN \* inside a two-byte character
            IF b = 160 \/ b = 133 THEN toks' = Closed /\ num' = none /\ lead' = FALSE /\ UNCHANGED ok
            ELSE IF Cont(b) THEN num' = bad /\ lead' = FALSE /\ UNCHANGED <<ok, toks>>
            ELSE ok' = FALSE /\ lead' = FALSE /\ UNCHANGED <<toks, num>>
          ELSE IF b = 194 THEN lead' = TRUE /\ UNCHANGED <<ok, toks, num>>
          ELSE IF b >= 128 THEN ok' = FALSE /\ UNCHANGED <<toks, num, lead>>
          ELSE IF White(b) THEN toks' = Closed /\ num' = none /\ UNCHANGED <<ok, lead>>
          ELSE num' = Push(b) /\ UNCHANGED <<ok, toks, lead>>
Next == Len(input) < MaxLen /\ \E b \in Bytes : input' = Append(input, b) /\ Step(b)
Spec == Init /\ [][Next]_vars
\* the reading if the file ended here
FinalOk == ok /\ (dirty => LineOk(Closed) /\ ~lead)
RECURSIVE Num(_, _)
Num(d, i) == IF i = 0 THEN 0 ELSE 10 * Num(d, i - 1) + d[i]
NumOf(d) == Num(d, Len(d))
Agree ==
  LET p == ParseGraph(input)
  IN  /\ p.ok = FinalOk
      /\ p.ok => [i \in DOMAIN p.val |-> <<NumOf(p.val[i][1]), NumOf(p.val[i][2])>>] =
                 (IF dirty THEN Append(out, LET t == Closed IN IF t[1] <= t[2] THEN <<t[1], t[2]>> ELSE <<t[2], t[1]>>) ELSE out)
\* a prefix that is already wrong in a finished line stays wrong
Sticky == [][(\E i \in DOMAIN input : input[i] = LF) /\ ~ok => ~ok']_vars
=============================================================================
