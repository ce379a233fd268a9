----------------------------- MODULE SchnorrGen -----------------------------
(* Random behaviours of Schnorr for replay. *)
EXTENDS Schnorr

Pick(T) == {RandomElement(IF log = <<>> THEN {} ELSE T)}
GenInit == sigs = <<>> /\ made = {} /\ seen = {} /\ log = << [E0 EXCEPT !.op = "pkline", !.x = 1] >>
Right(i) == {s \in made : s.sig = sigs[i]}
(* the signature an altered one came from: same nonce *)
Close(i) == {s \in made : s.sig.r.k = sigs[i].r.k}
GenNext ==
    \E r \in Pick(1..100), q \in Pick(1..100), d \in Pick(Secret), m \in Pick(Msgs), k \in Pick(Nonces), p \in Pick({1, 2}), y \in Pick(Keys), a \in Pick(5..9) :
        IF r <= 14 \/ sigs = <<>> THEN Sign(d, m, k)
        ELSE \E i \in Pick(I), j \in Pick(I) :
             CASE r <= 18 -> FlipR(i, p)
               [] r <= 22 -> FlipS(i, p)
               [] r <= 27 -> Combine(i, j)
               [] r <= 30 /\ Plain(i) -> NegS(i)
               [] r <= 33 /\ Plain(i) /\ Plain(j) /\ {sigs[i].s.p, sigs[j].s.p} \cap Null = {} /\ PAdd(sigs[i].s.p, sigs[j].s.p) # {} /\ Cardinality(sigs[i].s.p) <= 6 -> AddS(i, j)
               [] r <= 34 -> JunkR(i)
               [] r <= 36 -> JunkS(i, a)
               [] r = 37 /\ Cancel -> Cancelled(i, d, m)
               [] r <= 46 -> Through("sig", i)
               [] r <= 50 -> Through("pkline", y)
               [] r <= 54 -> Through("pkpress", y)
               \* mostly under the right key and message, or with one of them wrong
               [] OTHER -> LET S == IF Right(i) # {} THEN Right(i) ELSE Close(i)
                           IN IF S = {} \/ q > 90 THEN Verify(i, y, m)
                              ELSE \E s \in Pick(S) :
                                   Verify(i, IF q <= 70 THEN s.d ELSE y, IF q <= 50 \/ q > 70 THEN s.m ELSE m)
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
