------------------------------ MODULE MCWrite -------------------------------
(***************************************************************************)
(* Writing to a medium with room for Room units (C26), step by step: the    *)
(* writer hands its lines to a buffer, a full buffer goes to an encoder      *)
(* (which keeps up to Keep units back), the encoder passes units on to the   *)
(* medium.  At the end the buffer is flushed and the encoder finished, which *)
(* adds a trailer.  Short transfers may happen at every call.  A reported    *)
(* success means that the medium holds everything, a failure is reported     *)
(* only if it does not fit.  With Lazy the end of the stream is left to the  *)
(* destructors, whose failures nobody sees: then the property fails, which   *)
(* is the reason for the repair c148411.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, MaxBuf, MaxKeep, MaxTrailer, Lazy
VARIABLES len, room, bufsize, keep, trailer,   \* the parameters
          given,    \* units handed over by the writer
          buf, enc, \* units held back by the buffer and the encoder
          medium,   \* units on the medium
          pc, result
vars == <<len, room, bufsize, keep, trailer, given, buf, enc, medium, pc, result>>
par == <<len, room, bufsize, keep, trailer>>
Init ==
  /\ len \in 0..MaxLen /\ bufsize \in 1..MaxBuf /\ keep \in 0..MaxKeep /\ trailer \in 0..MaxTrailer
  /\ room \in 0..(MaxLen + MaxTrailer)
  /\ given = 0 /\ buf = 0 /\ enc = 0 /\ medium = 0 /\ pc = "write" /\ result = "none"
Fail == pc' = "drop" /\ result' = "err"
\* one line into the buffer
Give ==
  /\ pc = "write" /\ given < len /\ buf < bufsize
  /\ given' = given + 1 /\ buf' = buf + 1
  /\ UNCHANGED <<par, enc, medium, pc, result>>
\* part of the buffer to the encoder (a short transfer is possible)
Pass ==
  /\ pc \in {"write", "flush"} /\ buf > 0 /\ (pc = "flush" \/ buf = bufsize)
  /\ enc <= keep
  /\ \E k \in 1..buf : buf' = buf - k /\ enc' = enc + k
  /\ UNCHANGED <<par, given, medium, pc, result>>
\* the encoder passes on what it cannot keep back
Emit ==
  /\ pc \in {"write", "flush"} /\ enc > keep
  /\ IF medium < room THEN enc' = enc - 1 /\ medium' = medium + 1 /\ UNCHANGED <<pc, result>>
     ELSE Fail /\ UNCHANGED <<enc, medium>>
  /\ UNCHANGED <<par, given, buf>>
Flush == pc = "write" /\ given = len /\ pc' = "flush" /\ UNCHANGED <<par, given, buf, enc, medium, result>>
\* everything has reached the encoder
Finish ==
  /\ pc = "flush" /\ buf = 0 /\ enc <= keep
  /\ IF Lazy THEN pc' = "drop" /\ result' = "ok" /\ UNCHANGED enc
     ELSE pc' = "finish" /\ enc' = enc + trailer /\ UNCHANGED result
  /\ UNCHANGED <<par, given, buf, medium>>
Finishing ==
  /\ pc = "finish"
  /\ IF enc = 0 THEN pc' = "drop" /\ result' = "ok" /\ UNCHANGED <<enc, medium>>
     ELSE IF medium < room THEN enc' = enc - 1 /\ medium' = medium + 1 /\ UNCHANGED <<pc, result>>
     ELSE Fail /\ UNCHANGED <<enc, medium>>
  /\ UNCHANGED <<par, given, buf>>
\* the destructors write what they can; the result is out already
Drop ==
  /\ pc = "drop" /\ pc' = "done"
  /\ LET left == buf + enc + (IF Lazy THEN trailer ELSE 0)
     IN  medium' = IF medium + left <= room THEN medium + left ELSE room
  /\ UNCHANGED <<par, given, buf, enc, result>>
Next == Give \/ Pass \/ Emit \/ Flush \/ Finish \/ Finishing \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest ==
  pc = "done" => /\ result = "ok" => medium = len + trailer
                 /\ result = "err" => room < len + trailer
Fits == medium <= room
Ends == <>(pc = "done")
=============================================================================
