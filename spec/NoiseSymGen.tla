---------------------------- MODULE NoiseSymGen ----------------------------
(* Behaviours of NoiseSym for replay: the same actions, chosen at random with *)
(* weights that keep the two objects mostly in step, so that every kind of    *)
(* decryption - genuine, damaged, foreign, stale - happens often.             *)
EXTENDS NoiseSym

(* depends on the state, or TLC would draw once and for all *)
Pick(S) == {RandomElement(IF log = <<>> THEN {} ELSE S)}
Deliverable(o) == IF CanCrypt(o) THEN {m \in pool : m.hist = hist[o]} ELSE {}
Other(o) == IF o = "A" THEN "B" ELSE "A"

GenInit ==
    \E r \in 1..10, na \in Names :
        LET nb2 == IF r <= 9 THEN na ELSE CHOOSE nb \in Names : nb # na
            a == SymInit(<<>>, na)
            b == SymInit(a.d, nb2)
        IN /\ d = b.d
           /\ st = [A |-> Live(a.ss), B |-> Live(b.ss)]
           /\ hist = [A |-> NewHist(a.ss.h), B |-> NewHist(b.ss.h)]
           /\ pool = {}
           /\ log = << [E0("new", "A") EXCEPT !.x = a.ss.h, !.h = a.ss.h],
                       [E0("new", "B") EXCEPT !.x = b.ss.h, !.h = b.ss.h] >>

Hs(o) == st[o].mode = "hs"
Alive == {o \in Obj : st[o].mode # "dead"}

Free(r, o, k, l, n) ==
    CASE r <= 6 /\ Hs(o) -> MixOne(o, k, l, n)
      [] r <= 45 /\ Hs("A") /\ Hs("B") -> MixBoth(k, l, n)
      [] r <= 92 /\ CanCrypt(o) -> Encrypt(o, l, n)
      [] r > 96 /\ Hs(o) /\ Len(log) > 10 -> Finish(o)
      [] st[o].mode = "tr" -> SendT(o, l, n)
      [] Hs("A") /\ Hs("B") -> MixBoth(k, l, n)
      [] Hs(o) -> MixOne(o, k, l, n)
      [] OTHER -> FALSE

GenNext ==
    \E r \in Pick(1..100), q \in Pick(1..100), o \in Pick(IF Alive = {} THEN Obj ELSE Alive), k \in Pick(MixKinds), l \in Pick(Labels), n \in Pick(Lens) :
        LET ready == {x \in Obj : Deliverable(x) # {}}
        IN IF Alive = {} THEN Go /\ log' = [i \in 1..MaxOps |-> IF i <= Len(log) THEN log[i] ELSE E0("stop", "A")] /\ UNCHANGED <<d, st, hist, pool>>
           ELSE IF ready # {} /\ q <= 92
           THEN \E x \in Pick(ready) :
                  IF q <= 78 THEN \E m \in Pick(Deliverable(x)) : Go /\ DecryptTerm(d, x, m.ct)
                  ELSE IF q <= 86 THEN \E m \in Pick(Deliverable(x)), kind \in Pick(0..4) :
                                         LET y == Damage(d, m.ct, kind) IN Go /\ DecryptTerm(y.d, x, y.t)
                  ELSE \E m \in Pick(pool) : Go /\ DecryptTerm(d, x, m.ct)
           ELSE IF q > 97 /\ pool # {} /\ CanCrypt(o) THEN \E m \in Pick(pool) : Go /\ DecryptTerm(d, o, m.ct)
           ELSE Free(r, o, k, l, n)

GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
