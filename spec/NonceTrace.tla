----------------------------- MODULE NonceTrace -----------------------------
(* Recorded nonces of a long channel, checked as the message counter counts:  *)
(* four zero bytes, then the counter as a 64-bit numeral in the byte order of *)
(* the suite.  (TLC's integers stop at 2^31; the numeral does not.)           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Windows == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES w, j
vars == <<w, j>>

(* least significant digit first *)
Digits(x, le) == IF le THEN SubSeq(x, 5, 12) ELSE Reverse(SubSeq(x, 5, 12))
RECURSIVE Inc(_)
Inc(ds) == IF ds = <<>> THEN <<>> ELSE IF ds[1] = 255 THEN <<0>> \o Inc(Tail(ds)) ELSE <<ds[1] + 1>> \o Tail(ds)

Init == w \in 1..Len(Windows) /\ j = 1
Next == j < Len(Windows[w].nonces) /\ j' = j + 1 /\ UNCHANGED w
Spec == Init /\ [][Next]_vars

At(i) == Windows[w].nonces[i]
Counts ==
    /\ SubSeq(At(j), 1, 4) = <<0, 0, 0, 0>>
    /\ j > 1 => Digits(At(j), Windows[w].le) = Inc(Digits(At(j - 1), Windows[w].le))
(* the first window lies where the numeral is one digit long *)
Starts == (j = 1 /\ Windows[w].small) => Digits(At(1), Windows[w].le)[1] = Windows[w].value
=============================================================================
