------------------------------ MODULE CurveAlg ------------------------------
(* Scalars and points as the algebra they stand for (C16).                    *)
(*                                                                            *)
(* A scalar is a polynomial over the integers in indeterminates for the       *)
(* parsed scalars; a point is a polynomial in the same indeterminates and one *)
(* more for an arbitrary point H, standing for that multiple of the base      *)
(* point.  Two registers must hold equal values exactly when their            *)
(* polynomials are equal (generically the indeterminates satisfy no relation  *)
(* of small degree).  Programs over registers are behaviours.                 *)
EXTENDS Poly, TLC, Json

CONSTANTS Curve,     \* "ed", "mont", "secp"
          MaxOps, Emit, Atoms

H == 9                         \* the indeterminate of the arbitrary point
VARIABLES sc, pt, log
vars == <<sc, pt, log>>
----------------------------------------------------------------------------
----------------------------------------------------------------------------
(* `raw': as parsed (possibly not reduced), not the result of an operation *)
Scalar(p, raw) == [p |-> p, raw |-> raw]
(* the value zero is a scalar on the Edwards curve only; elsewhere operations refuse it *)
HasZero == Curve # "secp"

E0 == [op |-> "", x |-> 0, y |-> 0, ok |-> TRUE, c |-> 0]
Room(n) == Len(log) + n <= MaxOps
Ended == Len(log) >= MaxOps

Init == sc = <<>> /\ pt = <<>> /\ log = <<>>

(* effect of one operation on [s, p, l]: registers and the log *)
Cur == [s |-> sc, p |-> pt, l |-> log]
NewS(z, v, e) == [z EXCEPT !.s = Append(@, v), !.l = Append(@, e)]
NewP(z, v, e) == [z EXCEPT !.p = Append(@, v), !.l = Append(@, e)]
Only(z, e) == [z EXCEPT !.l = Append(@, e)]

OpAtom(z, a)  == NewS(z, Scalar(PAtom(a), TRUE), [E0 EXCEPT !.op = "atom", !.c = a])
OpConst(z, k) == NewS(z, Scalar(PConst(k), FALSE), [E0 EXCEPT !.op = "const", !.c = k])
Arith(z, op, x, y) ==
    LET p == z.s[x].p q == z.s[y].p
        r == CASE op = "adds" -> PAdd(p, q) [] op = "subs" -> PSub(p, q) [] op = "muls" -> PMul(p, q)
        ok == r # {} \/ HasZero
        e == [E0 EXCEPT !.op = op, !.x = x, !.y = y, !.ok = ok]
    IN IF ok THEN NewS(z, Scalar(r, FALSE), e) ELSE Only(z, e)
OpBase(z) == NewP(z, PConst(1), [E0 EXCEPT !.op = "base"])
OpAny(z)  == NewP(z, PAtom(H), [E0 EXCEPT !.op = "any"])
OpExp(z, i, x) == NewP(z, PMul(z.p[i], z.s[x].p), [E0 EXCEPT !.op = "exp", !.x = i, !.y = x])
(* the neutral element cannot be represented on secp256k1: that sum is refused *)
OpAdd(z, i, j) ==
    LET r == PAdd(z.p[i], z.p[j])
        e == [E0 EXCEPT !.op = "addp", !.x = i, !.y = j, !.ok = r # {} \/ HasZero]
    IN IF e.ok THEN NewP(z, r, e) ELSE Only(z, e)
(* the point through compression, and through its uncompressed form *)
OpPress(z, i) == NewP(z, z.p[i], [E0 EXCEPT !.op = "press", !.x = i])
OpLine(z, i)  == NewP(z, z.p[i], [E0 EXCEPT !.op = "line", !.x = i])
(* a scalar through its bytes; parsed scalars by the adjusting parser, results by the exact one *)
OpClone(z, x) == NewS(z, z.s[x], [E0 EXCEPT !.op = "clone", !.x = x, !.c = IF z.s[x].raw THEN 1 ELSE 0])

(* there are no sums of points known by one coordinate *)
Sums == Curve # "mont"
Summable(z, i, j) == Curve = "ed" \/ (Curve = "secp" /\ PAdd(z.p[i], z.p[j]) # {})
Install(z) == sc' = z.s /\ pt' = z.p /\ log' = z.l
S == 1..Len(sc)
P == 1..Len(pt)
Small(p) == Degree(p) <= 3 /\ Cardinality(p) <= 6

Consts == IF Curve = "secp" THEN {1, 2, -1} ELSE {0, 1, 2, -1}
Next ==
    /\ Room(1)
    /\ \/ \E a \in Atoms : Install(OpAtom(Cur, a))
       \/ \E k \in Consts : Install(OpConst(Cur, k))
       \/ \E x, y \in S, op \in {"adds", "subs", "muls"} :
             /\ Small(sc[x].p) /\ Small(sc[y].p)
             /\ Install(Arith(Cur, op, x, y))
       \/ Install(OpBase(Cur)) \/ Install(OpAny(Cur))
       \/ \E i \in P, x \in S : Small(pt[i]) /\ Small(sc[x].p) /\ Install(OpExp(Cur, i, x))
       \/ \E i, j \in P : Sums /\ Install(OpAdd(Cur, i, j))
       \/ \E i \in P : Install(OpPress(Cur, i)) \/ Install(OpLine(Cur, i))
       \/ \E x \in S : Install(OpClone(Cur, x))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* the laws *)
Exp(p, s) == PMul(p, s)
Laws ==
    /\ \A i \in P, x, y \in S :
          /\ Exp(Exp(pt[i], sc[x].p), sc[y].p) = Exp(Exp(pt[i], sc[y].p), sc[x].p)
          /\ Exp(pt[i], PAdd(sc[x].p, sc[y].p)) = PAdd(Exp(pt[i], sc[x].p), Exp(pt[i], sc[y].p))
          /\ Exp(pt[i], PMul(sc[x].p, sc[y].p)) = Exp(Exp(pt[i], sc[x].p), sc[y].p)
    /\ \A i, j \in P :
          /\ PAdd(pt[i], pt[j]) = PAdd(pt[j], pt[i])
          /\ \A x \in S : Exp(PAdd(pt[i], pt[j]), sc[x].p) = PAdd(Exp(pt[i], sc[x].p), Exp(pt[j], sc[x].p))
(* Equality classes, which the replay compares: the first register with an equal *)
(* value.  In x-coordinates, and on the Montgomery curve altogether, a point and *)
(* its negative coincide.                                                        *)
Class(n, eq(_, _)) == [i \in 1..n |-> CHOOSE k \in 1..i : eq(k, i) /\ \A j \in 1..(k - 1) : ~ eq(j, i)]
SameS(k, i) == sc[k].p = sc[i].p
SameP(k, i) == pt[k] = pt[i]
SameX(k, i) == pt[k] = pt[i] \/ pt[k] = PNeg(pt[i])
Show == ~ Emit \/ ~ Ended \/
    PrintT("@@" \o ToJson([curve |-> Curve, log |-> log, s |-> Class(Len(sc), SameS), p |-> Class(Len(pt), SameP), x |-> Class(Len(pt), SameX)]))
=============================================================================
