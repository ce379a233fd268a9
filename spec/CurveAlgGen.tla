---------------------------- MODULE CurveAlgGen ----------------------------
(* Random programs of CurveAlg for replay.  Besides single operations, whole  *)
(* instances of the laws: both sides are computed, one after the other, on    *)
(* registers chosen at random.                                                *)
EXTENDS CurveAlg

Pick(T) == {RandomElement(IF log = <<>> THEN {} ELSE T)}
GenInit ==
    LET z == OpBase(OpAtom(OpAtom([s |-> <<>>, p |-> <<>>, l |-> <<>>], 1), 2))
    IN sc = z.s /\ pt = z.p /\ log = z.l

SmallS == {x \in S : Small(sc[x].p)}
SmallP == {i \in P : Small(pt[i])}
LastS(z) == Len(z.s)
LastP(z) == Len(z.p)
Fill(z) == [z EXCEPT !.l = @ \o [i \in 1..(MaxOps - Len(z.l)) |-> [E0 EXCEPT !.op = "stop"]]]

(* (P^x)^y = (P^y)^x *)
Dh(i, x, y) ==
    LET a == OpExp(Cur, i, x) b == OpExp(a, LastP(a), y) c == OpExp(b, i, y)
    IN OpExp(c, LastP(c), x)
(* P^(xy) = (P^x)^y *)
Power(i, x, y) ==
    LET a == Arith(Cur, "muls", x, y) b == OpExp(a, i, LastS(a)) c == OpExp(b, i, x)
    IN OpExp(c, LastP(c), y)
(* P^(x+y) = P^x + P^y *)
SumRule(op, i, x, y) ==
    LET a == Arith(Cur, op, x, y) b == OpExp(a, i, LastS(a))
        c == OpExp(b, i, x) d == OpExp(c, i, y)
    IN IF LastS(a) = Len(sc) THEN a
       ELSE IF op = "subs" THEN (IF Sums /\ Summable(d, LastP(b), LastP(d))
                                 THEN LET e == OpExp(b, i, y) IN OpAdd(OpExp(e, i, x), LastP(b), LastP(e)) ELSE d)
       ELSE IF Summable(d, LastP(c), LastP(d)) THEN OpAdd(d, LastP(c), LastP(d)) ELSE d
(* (P + Q)^x = P^x + Q^x *)
Distribute(i, j, x) ==
    LET a == OpAdd(Cur, i, j) b == OpExp(a, LastP(a), x) c == OpExp(b, i, x) d == OpExp(c, j, x)
    IN IF Summable(d, LastP(c), LastP(d)) THEN OpAdd(d, LastP(c), LastP(d)) ELSE d
(* P + Q = Q + P, (P + Q) + R = P + (Q + R) *)
Assoc(i, j, k) ==
    LET a == OpAdd(Cur, i, j) b == IF Summable(a, LastP(a), k) THEN OpAdd(a, LastP(a), k) ELSE a
    IN IF ~ Summable(b, j, k) THEN b
       ELSE LET c == OpAdd(b, j, k) IN IF Summable(c, i, LastP(c)) THEN OpAdd(c, i, LastP(c)) ELSE c

GenNext ==
    \E r \in Pick(1..100), a \in Pick(Atoms), k \in Pick(Consts), x \in Pick(SmallS), y \in Pick(SmallS),
       i \in Pick(SmallP), j \in Pick(SmallP), o \in Pick({"adds", "subs", "muls"}) :
        LET op == o
            pq == Summable(Cur, i, j)
        IN /\ ~ Ended
           /\ IF Room(6) /\ r <= 55
              THEN Install(CASE r <= 12 -> Dh(i, x, y)
                             [] r <= 22 -> Power(i, x, y)
                             [] r <= 34 -> SumRule(IF r <= 28 THEN "adds" ELSE "subs", i, x, y)
                             [] r <= 44 /\ pq -> Distribute(i, j, x)
                             [] r <= 54 /\ pq -> Assoc(i, j, RandomElement(IF log = <<>> THEN {} ELSE SmallP))
                             [] OTHER -> OpBase(Cur))
              ELSE IF ~ Room(1) THEN FALSE
              ELSE Install(CASE r <= 60 -> OpAtom(Cur, a)
                             [] r <= 64 -> OpConst(Cur, k)
                             [] r <= 72 -> Arith(Cur, op, x, y)
                             [] r <= 75 -> OpAny(Cur)
                             [] r <= 82 -> OpExp(Cur, i, x)
                             [] r <= 87 /\ Sums -> OpAdd(Cur, i, j)
                             [] r <= 91 -> OpPress(Cur, i)
                             [] r <= 95 -> OpLine(Cur, i)
                             [] OTHER -> OpClone(Cur, x))
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
