-------------------------------- MODULE Poly --------------------------------
(* Polynomials over the integers in numbered indeterminates, in normal form:  *)
(* a set of terms [m |-> sorted sequence of indeterminates, c |-> non-zero    *)
(* coefficient].                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SortedSeq(s) == SortSeq(s, LAMBDA x, y : x < y)
CoefOf(p, m) == LET S == {t \in p : t.m = m} IN IF S = {} THEN 0 ELSE (CHOOSE t \in S : TRUE).c
Monos(p) == {t.m : t \in p}
PAdd(p, q) == {t \in {[m |-> m, c |-> CoefOf(p, m) + CoefOf(q, m)] : m \in Monos(p) \cup Monos(q)} : t.c # 0}
PNeg(p) == {[t EXCEPT !.c = - @] : t \in p}
PSub(p, q) == PAdd(p, PNeg(q))
PTerm(p, t) == {[m |-> SortedSeq(u.m \o t.m), c |-> u.c * t.c] : u \in p}
RECURSIVE PMulR(_, _)
PMulR(p, q) == IF q = {} THEN {} ELSE LET t == CHOOSE t \in q : TRUE IN PAdd(PTerm(p, t), PMulR(p, q \ {t}))
PMul(p, q) == PMulR(p, q)
PAtom(a) == {[m |-> <<a>>, c |-> 1]}
PConst(k) == IF k = 0 THEN {} ELSE {[m |-> <<>>, c |-> k]}
Degree(p) == IF p = {} THEN 0 ELSE CHOOSE n \in {Len(t.m) : t \in p} : \A t \in p : Len(t.m) <= n
=============================================================================
