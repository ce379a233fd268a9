---------------------------- MODULE IdentityText ----------------------------
(* Texts and identities recorded from vru-session, recomputed by Base64.      *)
EXTENDS Base64, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in {k \in 1..Len(Records) : k % 50 = 1}
Next == i % 50 # 0 /\ i < Len(Records) /\ i' = i + 1
Spec == Init /\ [][Next]_i
R == Records[i]
Agrees == LET id == Identity(R.text) IN
          /\ R.ok = (id # Bad)
          /\ R.ok => R.hash = id
Prints == R.shown => Text(R.hash) = R.text
(* the coding itself, on short byte strings: one text each *)
Bytes == {0, 1, 63, 64, 127, 128, 255}
Short == i = 1 => \A n \in 0..3 : \A b \in [1..n -> Bytes] : Decode(Encode(b)) = b
=============================================================================
