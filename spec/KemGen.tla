------------------------------- MODULE KemGen -------------------------------
(* Random behaviours of Kem for replay, mostly decapsulations, with           *)
(* reserialisations of every object in between.                               *)
EXTENDS Kem

Pick(S) == {RandomElement(IF log = <<>> THEN {} ELSE S)}
GenInit == \E k \in Keys : cts = <<>> /\ secrets = {} /\ decs = {} /\ log = << [E0 EXCEPT !.op = "pk", !.c = k] >>

GenNext ==
    \E r \in Pick(1..100), k \in Pick(Keys), j \in Pick(Keys), s \in Pick(Seeds), q \in Pick(1..100), z \in Pick(0..3) :
        LET h == IF q <= 90 THEN A(k) ELSE CHOOSE x \in Hashes : x # A(k)
            jj == IF q % 10 # 0 THEN k ELSE j
        IN IF r <= 14 \/ cts = <<>> THEN Encapsulate(k, h, s)
           ELSE IF r <= 20 THEN Craft(k, h, s, z)
           ELSE \E c \in Pick(C) :
                IF r <= 30 THEN \E p \in Pick(Flips) : Flip(c, p)
                ELSE IF r <= 34 THEN \E e \in Pick(C) : Mix(c, e)
                ELSE IF r <= 37 THEN Arbitrary(z)
                ELSE IF r <= 55 THEN IF z = 0 THEN Reserialise("pk", k) ELSE IF z = 1 THEN Reserialise("sk", k) ELSE Reserialise("ct", c)
                ELSE IF r <= 60 THEN Decapsulate(k, j, h, c)
                ELSE \* to the key it was made for, when it was made for one
                     LET own == {x \in Keys : Made(cts[c]) /\ cts[c].u.src[2] = A(x)}
                         kk == IF own = {} THEN k ELSE IF k \in own THEN k ELSE CHOOSE x \in own : TRUE
                         hh == IF Made(cts[c]) /\ cts[c].u.src[3][1] = "coins" /\ q <= 90 THEN cts[c].u.src[3][3] ELSE A(kk)
                     IN Decapsulate(kk, IF q % 10 = 5 THEN j ELSE kk, hh, c)
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
