----------------------------- MODULE TextFormat -----------------------------
(***************************************************************************)
(* The text format of graph, set and sequence files, from the raw bytes up: *)
(* lines, UTF-8 decoding, Unicode white space, tokens, unsigned 32-bit      *)
(* integers.  TLC integers are signed 32-bit, so ids are kept as sequences  *)
(* of decimal digits without leading zeros.                                 *)
(***************************************************************************)
EXTENDS Graphs

LF == 10
CR == 13

---------------------------------------------------------------------------
(* Lines: pieces between line feeds; a last piece without line feed counts  *)
(* if it is not empty.                                                      *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(bytes, i, cur, acc) ==
  IF i > Len(bytes) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF bytes[i] = LF THEN SplitAt(bytes, i + 1, <<>>, Append(acc, cur))
  ELSE SplitAt(bytes, i + 1, Append(cur, bytes[i]), acc)
Lines(bytes) == SplitAt(bytes, 1, <<>>, <<>>)

---------------------------------------------------------------------------
(* UTF-8: the sequence of code points, or <<-1>> if the bytes are invalid   *)
Bad == <<-1>>
Cont(b) == b >= 128 /\ b <= 191
RECURSIVE Decode(_, _, _)
Decode(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET x == b[i]
           left == Len(b) - i
           c(k) == b[i + k] - 128
       IN  IF x < 128 THEN Decode(b, i + 1, Append(acc, x))
           ELSE IF x >= 194 /\ x <= 223
                THEN IF left >= 1 /\ Cont(b[i + 1])
                     THEN Decode(b, i + 2, Append(acc, (x - 192) * 64 + c(1))) ELSE Bad
           ELSE IF x >= 224 /\ x <= 239
                THEN IF left >= 2 /\ Cont(b[i + 1]) /\ Cont(b[i + 2])
                        /\ (x = 224 => b[i + 1] >= 160)      \* no overlong forms
                        /\ (x = 237 => b[i + 1] <= 159)      \* no surrogates
                     THEN Decode(b, i + 3, Append(acc, (x - 224) * 4096 + c(1) * 64 + c(2))) ELSE Bad
           ELSE IF x >= 240 /\ x <= 244
                THEN IF left >= 3 /\ Cont(b[i + 1]) /\ Cont(b[i + 2]) /\ Cont(b[i + 3])
                        /\ (x = 240 => b[i + 1] >= 144)
                        /\ (x = 244 => b[i + 1] <= 143)
                     THEN Decode(b, i + 4, Append(acc, (x - 240) * 262144 + c(1) * 4096 + c(2) * 64 + c(3))) ELSE Bad
           ELSE Bad
CodePoints(b) == Decode(b, 1, <<>>)

White(c) == c \in (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

RECURSIVE Tok(_, _, _, _)
Tok(s, i, cur, acc) ==
  IF i > Len(s) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF White(s[i]) THEN Tok(s, i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE Tok(s, i + 1, Append(cur, s[i]), acc)
Tokens(s) == Tok(s, 1, <<>>, <<>>)

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ White(s[1]) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ White(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

---------------------------------------------------------------------------
(* Unsigned 32-bit integers as canonical digit sequences; <<-1>> = error    *)
MaxU32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
\* canonical digit sequences compared as numbers
DigitsLE(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ LET D == {i \in DOMAIN a : a[i] # b[i]}
        IN  D = {} \/ LET i == MinOf(D, 0) IN a[i] < b[i]
ParseU32(tok) ==
  LET t == IF tok # <<>> /\ tok[1] = 43 THEN Tail(tok) ELSE tok   \* one leading '+' is accepted
  IN  IF t = <<>> \/ \E i \in DOMAIN t : t[i] < 48 \/ t[i] > 57 THEN Bad
      ELSE LET d == StripZeros([i \in DOMAIN t |-> t[i] - 48])
           IN  IF DigitsLE(d, MaxU32) THEN d ELSE Bad

---------------------------------------------------------------------------
(* Parsing whole files: a record [ok, val] *)
Fail == [ok |-> FALSE, val |-> <<>>]
OrderedPair(a, b) == IF DigitsLE(a, b) THEN <<a, b>> ELSE <<b, a>>
\* one line of a graph file: the ordered pair of ids, or Bad
EdgeLine(line) ==
  LET cp == CodePoints(line)
      t == Tokens(cp)
  IN  IF cp = Bad \/ Len(t) # 2 THEN Bad
      ELSE LET a == ParseU32(t[1])
               b == ParseU32(t[2])
           IN  IF a = Bad \/ b = Bad THEN Bad ELSE OrderedPair(a, b)
IdLine(line) == LET cp == CodePoints(line) IN IF cp = Bad THEN Bad ELSE ParseU32(Trim(cp))
ParseWith(bytes, F(_)) ==
  LET ls == Lines(bytes)
      v == TLCEval([i \in DOMAIN ls |-> F(ls[i])])
  IN  IF \E i \in DOMAIN v : v[i] = Bad THEN Fail ELSE [ok |-> TRUE, val |-> v]
ParseGraph(bytes) == ParseWith(bytes, EdgeLine)    \* val: sequence of ordered pairs
ParseIds(bytes) == ParseWith(bytes, IdLine)        \* val: sequence of ids
=============================================================================
