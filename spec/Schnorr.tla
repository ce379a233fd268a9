------------------------------- MODULE Schnorr -------------------------------
(* Signatures of rac (C17, C18) as algebra: a signature is the coordinate of   *)
(* the nonce point and the scalar s = k - d h, where h is the hash of that     *)
(* coordinate and the message; it verifies under Y when the coordinate of      *)
(* hY + sG is the given one.  Scalars are polynomials (Poly); every hash value *)
(* is an indeterminate of its own.  A coordinate determines a point up to its  *)
(* sign.                                                                       *)
(*                                                                             *)
(* The adversary alters bits of both parts, exchanges parts between            *)
(* signatures, adds and negates what it knows, presents signatures under other *)
(* messages and keys, also keys related to the honest ones, and arbitrary      *)
(* bytes.                                                                      *)
EXTENDS Poly, TLC, Json

CONSTANTS MaxOps, Emit, Msgs, Cancel

(* indeterminates: secret keys 1, 2, nonces 3, 4, arbitrary scalars 5, ... *)
Secret == {1, 2}
Nonces == {3, 4}
(* public keys: of both owners, the negative of the first, the sum *)
Keys == 1..4
KeyPoly(y) == CASE y = 1 -> PAtom(1) [] y = 2 -> PAtom(2) [] y = 3 -> PNeg(PAtom(1)) [] y = 4 -> PAdd(PAtom(1), PAtom(2))
----------------------------------------------------------------------------
(* coordinates: of a nonce (3, 4) or arbitrary bytes (0), with a set of altered bits *)
Coord(k) == [k |-> k, flips |-> {}]
FlipCode(f) == (IF 1 \in f THEN 1 ELSE 0) + (IF 2 \in f THEN 2 ELSE 0)
HashAtom(r, m) == PAtom(1000 + 100 * r.k + 10 * FlipCode(r.flips) + m)
(* an altered scalar is an unknown one *)
Scalar(s) == IF s.flips = {} THEN s.p ELSE PAdd(s.p, PAtom(500 + FlipCode(s.flips)))

Challenge(sig, m) == HashAtom(sig.r, m)
Commitment(sig, y, m) == PAdd(PMul(Challenge(sig, m), KeyPoly(y)), Scalar(sig.s))
Verifies(sig, y, m) ==
    /\ sig.r.k # 0 /\ sig.r.flips = {}
    /\ LET q == Commitment(sig, y, m) IN q = PAtom(sig.r.k) \/ q = PNeg(PAtom(sig.r.k))
MakeSig(d, m, k) ==
    [r |-> Coord(k), s |-> [p |-> PSub(PAtom(k), PMul(PAtom(d), HashAtom(Coord(k), m))), flips |-> {}]]
----------------------------------------------------------------------------
VARIABLES sigs, made, seen, log
vars == <<sigs, made, seen, log>>

E0 == [op |-> "", x |-> 0, y |-> 0, m |-> 0, ok |-> TRUE]
Go == Len(log) < MaxOps
Ended == Len(log) >= MaxOps
Log(e) == log' = Append(log, e)
New(s, e) == Go /\ sigs' = Append(sigs, s) /\ Log(e) /\ UNCHANGED <<made, seen>>

Init == sigs = <<>> /\ made = {} /\ seen = {} /\ log = <<>>

Sign(d, m, k) ==
    LET s == MakeSig(d, m, k)
    IN /\ Go /\ sigs' = Append(sigs, s)
       /\ made' = made \cup {[d |-> d, m |-> m, sig |-> s]}
       /\ Log([E0 EXCEPT !.op = "sign", !.x = d, !.y = k, !.m = m])
       /\ UNCHANGED seen
Toggle(x, p) == [x EXCEPT !.flips = (@ \ {p}) \cup ({p} \ @)]
FlipR(i, p) == New([sigs[i] EXCEPT !.r = Toggle(@, p)], [E0 EXCEPT !.op = "flipr", !.x = i, !.y = p])
FlipS(i, p) == New([sigs[i] EXCEPT !.s = Toggle(@, p)], [E0 EXCEPT !.op = "flips", !.x = i, !.y = p])
Combine(i, j) == New([r |-> sigs[i].r, s |-> sigs[j].s], [E0 EXCEPT !.op = "combine", !.x = i, !.y = j])
Plain(i) == sigs[i].s.flips = {}
NegS(i) == Plain(i) /\ New([sigs[i] EXCEPT !.s.p = PNeg(@)], [E0 EXCEPT !.op = "negs", !.x = i])
(* some arbitrary scalars (6, 8) are zero as residues, which no coordinate matches but which add nothing *)
Null == {PAtom(6), PAtom(8)}
AddS(i, j) == Plain(i) /\ Plain(j) /\ sigs[i].s.p \notin Null /\ sigs[j].s.p \notin Null /\ PAdd(sigs[i].s.p, sigs[j].s.p) # {} /\ Cardinality(sigs[i].s.p) <= 6
              /\ New([sigs[i] EXCEPT !.s.p = PAdd(@, sigs[j].s.p)], [E0 EXCEPT !.op = "adds", !.x = i, !.y = j])
(* arbitrary bytes in one part *)
JunkR(i) == New([sigs[i] EXCEPT !.r = Coord(0)], [E0 EXCEPT !.op = "junkr", !.x = i])
JunkS(i, a) == New([sigs[i] EXCEPT !.s = [p |-> PAtom(a), flips |-> {}]], [E0 EXCEPT !.op = "junks", !.x = i, !.y = a])
(* s = -d h: the commitment is the neutral element (needs the secret key); no coordinate can match *)
Cancelled(i, d, m) == New([sigs[i] EXCEPT !.s = [p |-> PNeg(PMul(PAtom(d), HashAtom(sigs[i].r, m))), flips |-> {}]],
                          [E0 EXCEPT !.op = "cancel", !.x = i, !.y = d, !.m = m])
(* through bytes: a signature, a public key in full and compressed *)
Through(what, i) == Go /\ Log([E0 EXCEPT !.op = what, !.x = i]) /\ UNCHANGED <<sigs, made, seen>>
Verify(i, y, m) ==
    LET ok == Verifies(sigs[i], y, m)
    IN /\ Go /\ seen' = seen \cup {[sig |-> sigs[i], y |-> y, m |-> m, ok |-> ok]}
       /\ Log([E0 EXCEPT !.op = "verify", !.x = i, !.y = y, !.m = m, !.ok = ok])
       /\ UNCHANGED <<sigs, made>>

I == 1..Len(sigs)
Next ==
    \/ \E d \in Secret, m \in Msgs, k \in Nonces : Sign(d, m, k)
    \/ \E i \in I, p \in {1, 2} : FlipR(i, p) \/ FlipS(i, p)
    \/ \E i, j \in I : Combine(i, j) \/ AddS(i, j)
    \/ \E i \in I : NegS(i) \/ JunkR(i) \/ JunkS(i, 5)
    \/ \E i \in I, d \in Secret, m \in Msgs : Cancel /\ Cancelled(i, d, m)
    \/ \E i \in I, y \in Keys, m \in Msgs : Verify(i, y, m)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C17 *)
Genuine == \A v \in seen : (\E s \in made : s.sig = v.sig /\ s.d = v.y /\ s.m = v.m) => v.ok
(* C18: under the owners' keys only what was made with them for that message *)
OnlyGenuine == \A v \in seen : v.ok /\ v.y \in Secret => \E s \in made : s.sig = v.sig /\ s.d = v.y /\ s.m = v.m
Abstract == <<sigs, made, seen, Len(log)>>
Show == ~ Emit \/ ~ Ended \/ PrintT("@@" \o ToJson(log))
=============================================================================
