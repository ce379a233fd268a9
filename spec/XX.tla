-------------------------------- MODULE XX --------------------------------
(* The handshake of vru-session (C01-C06):                                   *)
(*     -> e                                                                  *)
(*     <- ec, (p), e, ee, s, es                                              *)
(*     -> ec, (q), sc, s, se, (r)                                            *)
(*     <- sc, (s)                                                            *)
(* with e and s pairs of an elliptic and a lattice key, ec/sc encapsulations *)
(* to the peer's ephemeral/static lattice key, and the responder's identity  *)
(* mixed in first.  Two pairs of instances run side by side over a network   *)
(* that an adversary controls: any field of any message may be replaced by   *)
(* any value of the same type seen before, or by damaged or malicious bytes, *)
(* and the adversary takes part itself, with its own keys or claiming those  *)
(* of somebody else.                                                         *)
EXTENDS Sym, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Casts,      \* indices into AllCasts
          Budget,     \* fields that may differ from what the peer sent
          Damages,    \* kinds of damage
          Emit

Slots == {"ei", "q0", "q1", "er", "kr", "ks", "p", "q", "r", "s"}
Payloads == {"p", "q", "r", "s"}

(* own: whose public key is presented; sk: whose secret key is used;
   id: the identity asked for / answered to.  M is the adversary. *)
I(own, sk, tgt) == [own |-> own, sk |-> sk, id |-> tgt]
Cast(i1, r1, i2, r2, vary) == [i |-> <<i1, i2>>, r |-> <<r1, r2>>, vary |-> vary]
AllCasts == <<
    \* 1: two honest sessions of the same parties
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), ""),
    \* 2: A talks to B and to the adversary
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","M"), I("M","M","M"), ""),
    \* 3: the adversary answers with B's public key
    Cast(I("A","A","B"), I("B","M","B"), I("A","A","B"), I("B","B","B"), ""),
    \* 4: the adversary answers with its own key where B was asked for
    Cast(I("A","A","B"), I("M","M","B"), I("A","A","B"), I("B","B","B"), ""),
    \* 5: the adversary initiates with A's public key
    Cast(I("A","M","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), ""),
    \* 6: relay: A talks to the adversary, the adversary to B
    Cast(I("A","A","M"), I("M","M","M"), I("M","M","B"), I("B","B","B"), ""),
    \* 7: a responder reached under an identity that is not its own
    Cast(I("A","A","B"), I("C","C","C"), I("A","A","B"), I("C","C","B"), ""),
    \* 8: both roles at once
    Cast(I("A","A","B"), I("B","B","B"), I("B","B","A"), I("A","A","A"), ""),
    \* 9: an honest party talks to itself next to another session
    Cast(I("A","A","A"), I("A","A","A"), I("B","B","A"), I("A","A","A"), ""),
    \* 10-19: two sessions that share every seed but one
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "ei"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "q0"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "q1"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "er"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "kr"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "ks"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "p"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "q"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "r"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","B"), I("B","B","B"), "s"),
    \* 20-21: the same seeds, another initiator or another responder
    Cast(I("A","A","B"), I("B","B","B"), I("C","C","B"), I("B","B","B"), "static"),
    Cast(I("A","A","B"), I("B","B","B"), I("A","A","C"), I("C","C","C"), "static"),
    \* 22-27: the adversary presents malformed long-term keys
    Cast(I("Mbad","M","B"), I("B","B","B"), I("A","A","Mbad"), I("Mbad","M","Mbad"), ""),
    Cast(I("Mlow","M","B"), I("B","B","B"), I("A","A","Mlow"), I("Mlow","M","Mlow"), ""),
    Cast(I("Mtor","M","B"), I("B","B","B"), I("A","A","Mtor"), I("Mtor","M","Mtor"), ""),
    Cast(I("Btor","M","B"), I("B","B","B"), I("A","A","B"), I("Btor","M","B"), ""),
    Cast(I("A","A","B"), I("Mbad","M","B"), I("A","A","B"), I("B","B","B"), ""),
    Cast(I("A","A","B"), I("Mlow","M","B"), I("A","A","Mtor"), I("M","M","Mtor"), ""),
    \* 28-29: an identity is asked for that is B's but for one byte, or for two whose changes cancel
    Cast(I("A","A","Bn1"), I("B","B","Bn1"), I("A","A","Bn2"), I("B","B","Bn2"), ""),
    Cast(I("A","A","Bn3"), I("B","B","Bn3"), I("A","A","Bn4"), I("B","B","Bn4"), "") >>

(* the party whose keys a presented long-term key is made from *)
Base(w) == CASE w \in {"Mbad", "Mlow", "Mtor"} -> "M" [] w = "Btor" -> "B" [] OTHER -> w
Weird(w) == w # Base(w)

VARIABLES cast, d, ini, res, step, seen, budget, log
vars == <<cast, d, ini, res, step, seen, budget, log>>

TheCast == AllCasts[cast]
(* who runs the instances of pair k *)
AdvI(k) == TheCast.i[k].sk = "M"
AdvR(k) == TheCast.r[k].sk = "M"

PayLen == 0   \* lengths of payloads are chosen by the replay
Atom(k, slot) ==
    LET n == IF TheCast.vary = "" \/ slot = TheCast.vary THEN k ELSE 1
    IN slot \o ToString(n)
AtomLen(slot) == IF slot \in {"ei", "er"} THEN 96 ELSE IF slot \in Payloads THEN PayLen ELSE 32
Slot(e, k, slot) == Lit(e, Atom(k, slot), AtomLen(slot))
Static(e, who) == Lit(e, "static" \o Base(who), 96)
----------------------------------------------------------------------------
(* keys: the two halves of a public key made from a seed *)
Ell(e, seed) == Mk(e, "ell", "", <<seed>>, <<>>)
Lat(e, seed) == Mk(e, "lat", "", <<seed>>, <<>>)
PkOf(e, seed) ==
    LET a == Ell(e, seed) b == Lit(a.d, "", 0) l == Lat(a.d, seed) c == Cat(l.d, <<a.t, l.t>>)
    IN [d |-> c.d, ell |-> a.t, lat |-> l.t, t |-> c.t]
(* the key that `who' presents as its long-term key *)
PkNamed(e, who) ==
    LET s == Static(e, who)
        p == PkOf(s.d, s.t)
        x == CASE who = "Mbad" -> Mk(p.d, "badpt", "", <<p.ell>>, <<>>)
               [] who = "Mlow" -> Mk(p.d, "lowpt", "", <<>>, <<>>)
               [] who \in {"Mtor", "Btor"} -> Mk(p.d, "torpt", "", <<p.ell>>, <<>>)
               [] OTHER -> [d |-> p.d, t |-> p.ell]
        c == Cat(x.d, <<x.t, p.lat>>)
    IN [d |-> c.d, t |-> c.t]
Near == {"Bn1", "Bn2", "Bn3", "Bn4"}
Ident(e, who) ==
    LET p == PkNamed(e, IF who \in Near THEN "B" ELSE who) h == Hash(p.d, <<p.t>>)
    IN IF who \in Near THEN Mk(h.d, "near", who, <<h.t>>, <<>>) ELSE h

(* Diffie-Hellman of a received point and the scalar of a seed *)
RECURSIVE Dh(_, _, _)
Dh(e, pt, seed) ==
    CASE e[pt].op = "torpt" -> Dh(e, e[pt].k[1], seed)      \* a component of small order is lost
      [] e[pt].op = "ell" ->
            LET o == e[pt].k[1] IN Mk(e, "edh", "", IF o < seed THEN <<o, seed>> ELSE <<seed, o>>, <<>>)
      [] e[pt].op = "lowpt" -> [d |-> e, t |-> pt]      \* small order: the result is the neutral point, whatever the scalar
      [] OTHER -> Mk(e, "edhp", "", <<pt, seed>>, <<>>)
ValidPoint(e, pt) == e[pt].op \in {"ell", "lowpt", "altpt", "torpt"}

Kct(e, seed, lat) == Mk(e, "kct", "", <<seed, lat>>, <<>>)
Kss(e, seed, lat) == Mk(e, "kss", "", <<seed, lat>>, <<>>)
(* decapsulation by the holder of seed `sk' using the public key of `own' *)
Kdec(e, own, sk, ct) ==
    LET n == e[ct]
    IN IF n.op = "kct" /\ own = sk /\ e[n.k[2]].op = "lat" /\ e[n.k[2]].k[1] = sk
       THEN Kss(e, n.k[1], n.k[2])
       ELSE Mk(e, "krej", "", <<sk, ct>>, <<>>)

(* chaining: s = [d, ss], keeping the table *)
MH(s, x) == SymMixHash(s, x)
MK(s, r) == SymMixKey([d |-> r.d, ss |-> s.ss], r.t)   \* r is a term just made on s.d
ProtocolName == "Noise_XX_25519+Kyber_ChaChaPoly_SHA256"

NoInst == [stage |-> "idle", ss |-> [h |-> 0, ck |-> 0, key |-> 0, n |-> 0], own |-> 0, sk |-> 0, id |-> 0, e |-> 0,
           peer |-> 0, tx |-> <<>>, rx |-> <<>>, h |-> 0, send |-> 0, recv |-> 0, pay |-> <<>>]
----------------------------------------------------------------------------
(* Each step returns [d, x (instance), ok, out (record of terms)] *)
Out0(e0, k) ==
    LET c   == TheCast.i[k]
        own == Static(e0, c.own)
        sk  == Static(own.d, c.sk)
        id  == Ident(sk.d, c.id)
        es  == Slot(id.d, k, "ei")
        pk  == PkOf(es.d, es.t)
        s0  == SymInit(pk.d, ProtocolName)
        s1  == MH(s0, id.t)
        s2  == MH(s1, pk.t)
    IN [d |-> s2.d, ok |-> TRUE, out |-> [ell |-> pk.ell, lat |-> pk.lat],
        x |-> [NoInst EXCEPT !.stage = "out0", !.ss = s2.ss, !.own = own.t, !.sk = sk.t, !.id = id.t, !.e = es.t,
                             !.tx = <<[ell |-> pk.ell, lat |-> pk.lat]>>]]

Fail(e, x) == [d |-> e, ok |-> FALSE, out |-> [none |-> 0], x |-> [x EXCEPT !.stage = "err"]]

Take0(e0, k, f) ==
    LET c   == TheCast.r[k]
        own == Static(e0, c.own)
        sk  == Static(own.d, c.sk)
        id  == Ident(sk.d, c.id)
        es  == Slot(id.d, k, "er")
        ks  == Slot(es.d, k, "kr")
        pay == Slot(ks.d, k, "p")
        x0  == [NoInst EXCEPT !.own = own.t, !.sk = sk.t, !.id = id.t, !.e = es.t, !.rx = <<f>>]
    IN IF ~ ValidPoint(pay.d, f.ell) THEN Fail(pay.d, x0)
       ELSE
        LET pkc == Cat(pay.d, <<f.ell, f.lat>>)
            s0  == SymInit(pkc.d, ProtocolName)
            s1  == MH(s0, id.t)
            s2  == MH(s1, pkc.t)
            ct  == Kct(s2.d, ks.t, f.lat)
            s3  == MK(s2, Kss(ct.d, ks.t, f.lat))
            s4  == SymEnc(s3, pay.t)
            epk == PkOf(s4.d, es.t)
            s5  == MH([d |-> epk.d, ss |-> s4.ss], epk.t)
            s6  == MK(s5, Dh(s5.d, f.ell, es.t))
            spk == PkNamed(s6.d, c.own)
            s7  == SymEnc([d |-> spk.d, ss |-> s6.ss], spk.t)
            s8  == MK(s7, Dh(s7.d, f.ell, sk.t))
            out == [ct |-> ct.t, p |-> s4.ct, ell |-> epk.ell, lat |-> epk.lat, s |-> s7.ct]
        IN [d |-> s8.d, ok |-> TRUE, out |-> out,
            x |-> [x0 EXCEPT !.stage = "out1", !.ss = s8.ss, !.tx = <<out>>]]

Take1(e0, k, x, f) ==
    LET q0  == Slot(e0, k, "q0")
        q1  == Slot(q0.d, k, "q1")
        pq  == Slot(q1.d, k, "q")
        pr  == Slot(pq.d, k, "r")
        s0  == [d |-> pr.d, ss |-> x.ss]
        x0  == [x EXCEPT !.rx = Append(@, f)]
        s1  == MK(s0, Kdec(s0.d, x.e, x.e, f.ct))
        s2  == SymDec(s1, f.p)
    IN IF ~ s2.ok THEN Fail(s2.d, x0) ELSE
    LET pkc == Cat(s2.d, <<f.ell, f.lat>>)
        s3  == MH([d |-> pkc.d, ss |-> s2.ss], pkc.t)
    IN IF ~ ValidPoint(s3.d, f.ell) THEN Fail(s3.d, x0) ELSE
    LET s4  == MK(s3, Dh(s3.d, f.ell, x.e))
        s5  == SymDec(s4, f.s)
    IN IF ~ s5.ok THEN Fail(s5.d, x0) ELSE
    LET pk  == s5.d[s5.pt].k       \* the static key: its two halves
        idt == Hash(s5.d, <<s5.pt>>)
    IN IF idt.t # x.id \/ ~ ValidPoint(s5.d, pk[1]) THEN Fail(idt.d, x0) ELSE
    LET s6  == MK([d |-> idt.d, ss |-> s5.ss], Dh(idt.d, pk[1], x.e))
        ct0 == Kct(s6.d, q0.t, f.lat)
        s7  == MK([d |-> ct0.d, ss |-> s6.ss], Kss(ct0.d, q0.t, f.lat))
        s8  == SymEnc(s7, pq.t)
        ct1 == Kct(s8.d, q1.t, pk[2])
        s9  == MK([d |-> ct1.d, ss |-> s8.ss], Kss(ct1.d, q1.t, pk[2]))
        spk == PkNamed(s9.d, TheCast.i[k].own)
        s10 == SymEnc([d |-> spk.d, ss |-> s9.ss], spk.t)
        s11 == MK(s10, Dh(s10.d, f.ell, x.sk))
        s12 == SymEnc(s11, pr.t)
        out == [ct |-> ct0.t, q |-> s8.ct, cts |-> ct1.t, s |-> s10.ct, r |-> s12.ct]
    IN [d |-> s12.d, ok |-> TRUE, out |-> out,
        x |-> [x0 EXCEPT !.stage = "out2", !.ss = s12.ss, !.peer = s5.pt, !.tx = Append(@, out), !.pay = <<s2.pt>>]]

Take2(e0, k, x, f) ==
    LET ks  == Slot(e0, k, "ks")
        pay == Slot(ks.d, k, "s")
        s0  == [d |-> pay.d, ss |-> x.ss]
        x0  == [x EXCEPT !.rx = Append(@, f)]
        s1  == MK(s0, Kdec(s0.d, x.e, x.e, f.ct))
        s2  == SymDec(s1, f.q)
    IN IF ~ s2.ok THEN Fail(s2.d, x0) ELSE
    LET s3  == MK(s2, Kdec(s2.d, x.own, x.sk, f.cts))
        s4  == SymDec(s3, f.s)
    IN IF ~ s4.ok THEN Fail(s4.d, x0) ELSE
    LET pk  == s4.d[s4.pt].k IN
    IF ~ ValidPoint(s4.d, pk[1]) THEN Fail(s4.d, x0) ELSE
    LET s5  == MK(s4, Dh(s4.d, pk[1], x.e))
        s6  == SymDec(s5, f.r)
    IN IF ~ s6.ok THEN Fail(s6.d, x0) ELSE
    LET ct  == Kct(s6.d, ks.t, pk[2])
        s7  == MK([d |-> ct.d, ss |-> s6.ss], Kss(ct.d, ks.t, pk[2]))
        s8  == SymEnc(s7, pay.t)
        sp  == SymSplit(s8)
        out == [ct |-> ct.t, s |-> s8.ct]
    IN [d |-> sp.d, ok |-> TRUE, out |-> out,
        x |-> [x0 EXCEPT !.stage = "done", !.ss = s8.ss, !.peer = s4.pt, !.tx = Append(@, out), !.h = s8.ss.h,
                         !.send = sp.k2, !.recv = sp.k1, !.pay = <<s2.pt, s6.pt>>]]

Take3(e0, k, x, f) ==
    LET s0  == [d |-> e0, ss |-> x.ss]
        x0  == [x EXCEPT !.rx = Append(@, f)]
        s1  == MK(s0, Kdec(s0.d, x.own, x.sk, f.ct))
        s2  == SymDec(s1, f.s)
    IN IF ~ s2.ok THEN Fail(s2.d, x0) ELSE
    LET sp  == SymSplit([d |-> s2.d, ss |-> s2.ss])
    IN [d |-> sp.d, ok |-> TRUE, out |-> [none |-> 0],
        x |-> [x0 EXCEPT !.stage = "done", !.ss = s2.ss, !.h = s2.ss.h, !.send = sp.k1, !.recv = sp.k2, !.pay = Append(@, s2.pt)]]
----------------------------------------------------------------------------
(* the network *)
FieldType(m, f) ==
    CASE f \in {"ct", "cts"} -> "ct"
      [] f = "ell" -> "ell" [] f = "lat" -> "lat"
      [] f = "s" /\ m # 3 -> "encpk"
      [] OTHER -> "pay"                     \* all payloads of a replay may have the same length
Fields(m) == CASE m = 0 -> {"ell", "lat"} [] m = 1 -> {"ct", "p", "ell", "lat", "s"}
               [] m = 2 -> {"ct", "q", "cts", "s", "r"} [] m = 3 -> {"ct", "s"}

(* what may stand in the place of term x of a type: a table and a set of terms *)
Types == {"ell", "lat", "ct", "encpk", "pay"}
Alter(e, ty, x, kind) ==
    IF ty = "ell"
    THEN CASE kind = 0 -> Mk(e, "altpt", "", <<x>>, <<>>)   \* another valid point
           [] kind = 1 -> Mk(e, "badpt", "", <<x>>, <<>>)   \* no point at all
           [] kind = 2 -> Mk(e, "lowpt", "", <<>>, <<>>)    \* the neutral point
           [] kind = 3 -> Mk(e, "torpt", "", <<x>>, <<>>)   \* the point plus one of small order
    ELSE Damage(e, x, kind)

(* choices for one field: <<"same">>, <<"seen", term>>, <<"dmg", kind>> *)
AltsOf(ty, x) == {<<"seen", t>> : t \in (seen[ty] \ {x})} \cup {<<"dmg", kind>> : kind \in IF ty # "ell" THEN Damages ELSE IF Damages = {} THEN {} ELSE (Damages \cap 0..2) \cup {3}}

(* applies a choice of alterations `a' (a function from some fields) to message f *)
RECURSIVE AlterAll(_, _, _, _, _)
AlterAll(e, m, f, a, todo) ==
    IF todo = {} THEN [d |-> e, f |-> f]
    ELSE LET g == CHOOSE g \in todo : TRUE
             c == a[g]
             r == IF c[1] = "seen" THEN [d |-> e, t |-> c[2]] ELSE Alter(e, FieldType(m, g), f[g], c[2])
         IN AlterAll(r.d, m, [f EXCEPT ![g] = r.t], a, todo \ {g})

SeenAdd(m, out) == [ty \in Types |-> seen[ty] \cup {out[f] : f \in {g \in Fields(m) : FieldType(m, g) = ty}}]

(* order of steps: pair 2 is always one step ahead of pair 1 *)
Script == << <<"out0", 2>>, <<"out0", 1>>, <<"take0", 2>>, <<"take0", 1>>, <<"take1", 2>>, <<"take1", 1>>,
             <<"take2", 2>>, <<"take2", 1>>, <<"take3", 2>>, <<"take3", 1>> >>

Init ==
    /\ cast \in Casts /\ d = <<>> /\ step = 1 /\ budget = Budget /\ log = <<>>
    /\ ini = <<NoInst, NoInst>> /\ res = <<NoInst, NoInst>>
    /\ seen = [ty \in Types |-> {}]

Event(op, k, r, f, a, slots) ==
    [op |-> op, k |-> k, ok |-> r.ok, rx |-> f, tx |-> r.out, own |-> r.x.own, sk |-> r.x.sk, id |-> r.x.id, alt |-> a,
     seeds |-> [i \in 1..Len(slots) |-> Slot(r.d, k, slots[i]).t],
     cast |-> IF op \in {"out0", "take1", "take3"} THEN TheCast.i[k] ELSE TheCast.r[k],
     h |-> r.x.h, send |-> r.x.send, recv |-> r.x.recv, peer |-> r.x.peer, pay |-> r.x.pay]

Skip == UNCHANGED <<cast, d, ini, res, seen, budget, log>> /\ step' = step + 1

DoOut0(k) ==
    LET r == Out0(d, k)
    IN /\ d' = r.d /\ ini' = [ini EXCEPT ![k] = r.x] /\ seen' = SeenAdd(0, r.out)
       /\ log' = Append(log, Event("out0", k, r, [none |-> 0], <<>>, <<"ei">>))
       /\ UNCHANGED <<cast, res, budget>> /\ step' = step + 1

(* the message the peer sent, if it did *)
Peer(op, k) ==
    CASE op = "take0" -> IF ini[k].stage = "out0" THEN <<0, ini[k].tx[1]>> ELSE <<>>
      [] op = "take1" -> IF res[k].stage = "out1" THEN <<1, res[k].tx[1]>> ELSE <<>>
      [] op = "take2" -> IF ini[k].stage = "out2" THEN <<2, ini[k].tx[2]>> ELSE <<>>
      [] op = "take3" -> IF res[k].stage = "done" THEN <<3, res[k].tx[2]>> ELSE <<>>
(* when the peer has failed, the adversary may still send the other pair's message *)
OtherPeer(op, k) == Peer(op, 3 - k)

Ready(op, k) ==
    CASE op = "take0" -> res[k].stage = "idle" [] op = "take1" -> ini[k].stage = "out0"
      [] op = "take2" -> res[k].stage = "out1" [] op = "take3" -> ini[k].stage = "out2"

Perform(op, k, f, a, cost) ==
    LET r == CASE op = "take0" -> Take0(f.d, k, f.f)
               [] op = "take1" -> Take1(f.d, k, ini[k], f.f)
               [] op = "take2" -> Take2(f.d, k, res[k], f.f)
               [] op = "take3" -> Take3(f.d, k, ini[k], f.f)
        m == CASE op = "take0" -> 1 [] op = "take1" -> 2 [] op = "take2" -> 3 [] op = "take3" -> 4
        slots == CASE op = "take0" -> <<"er", "kr", "p">> [] op = "take1" -> <<"q0", "q1", "q", "r">>
                   [] op = "take2" -> <<"ks", "s">> [] op = "take3" -> <<>>
    IN /\ d' = r.d
       /\ IF op \in {"take0", "take2"} THEN res' = [res EXCEPT ![k] = r.x] /\ UNCHANGED ini
          ELSE ini' = [ini EXCEPT ![k] = r.x] /\ UNCHANGED res
       /\ seen' = IF r.ok /\ m < 4 THEN SeenAdd(m, r.out) ELSE seen
       /\ log' = Append(log, Event(op, k, r, f.f, a, slots))
       /\ budget' = budget - cost /\ step' = step + 1 /\ UNCHANGED cast

Deliver(op, k) ==
    LET src == IF Peer(op, k) # <<>> THEN Peer(op, k) ELSE OtherPeer(op, k)
        base == IF Peer(op, k) # <<>> THEN 0 ELSE 1
    IN IF ~ Ready(op, k) \/ src = <<>> \/ base > budget THEN Skip
       ELSE \E A \in SUBSET Fields(src[1]) :
              /\ Cardinality(A) + base <= budget
              /\ \E a \in [A -> UNION {AltsOf(FieldType(src[1], g), src[2][g]) : g \in A}] :
                    /\ \A g \in A : a[g] \in AltsOf(FieldType(src[1], g), src[2][g])
                    /\ LET alt == SetToSeq({[m |-> src[1], f |-> g, c |-> a[g][1], x |-> a[g][2]] : g \in A})
                       IN Perform(op, k, AlterAll(d, src[1], src[2], a, A), alt, Cardinality(A) + base)

Next ==
    /\ step <= Len(Script)
    /\ LET s == Script[step] IN IF s[1] = "out0" THEN DoOut0(s[2]) ELSE Deliver(s[1], s[2])

Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Done(x) == x.stage = "done"
HonestI(k) == ~ AdvI(k) /\ TheCast.i[k].own = TheCast.i[k].sk
HonestR(k) == ~ AdvR(k) /\ TheCast.r[k].own = TheCast.r[k].sk
(* t is the long-term key of `who' *)
OfParty(t, who) == d[t].op = "cat" /\ d[d[t].k[1]].op = "ell" /\ d[d[d[t].k[1]].k[1]].s = "static" \o who

(* C01: without interference an honest pair that asks for the right identity completes and agrees *)
HonestCompletes ==
    (step > Len(Script) /\ budget = Budget) =>
        \A k \in {1, 2} : (HonestI(k) /\ HonestR(k) /\ TheCast.i[k].id = TheCast.r[k].own /\ TheCast.r[k].id = TheCast.r[k].own) =>
            /\ Done(ini[k]) /\ Done(res[k])
            /\ ini[k].h = res[k].h /\ ini[k].send = res[k].recv /\ ini[k].recv = res[k].send
            /\ OfParty(ini[k].peer, TheCast.r[k].own) /\ OfParty(res[k].peer, TheCast.i[k].own)
            /\ ini[k].pay = <<Slot(d, k, "p").t, Slot(d, k, "s").t>>
            /\ res[k].pay = <<Slot(d, k, "q").t, Slot(d, k, "r").t>>

(* a party that finished with the key of an honest party agrees with a session of that party *)
ResMatches(x, k) == \E j \in {1, 2} :
    /\ HonestI(j) /\ OfParty(x.peer, TheCast.i[j].own) /\ ini[j].stage \in {"out2", "done", "err"} /\ Len(ini[j].tx) = 2
    /\ ini[j].id = x.id                        \* the initiator asked for this responder
    /\ x.rx = ini[j].tx /\ x.tx[1] = ini[j].rx[1]
IniMatches(x, k) == \E j \in {1, 2} :
    /\ HonestR(j) /\ OfParty(x.peer, TheCast.r[j].own) /\ Done(res[j])
    /\ res[j].h = x.h /\ res[j].send = x.recv /\ res[j].recv = x.send
    /\ res[j].rx = x.tx /\ res[j].tx = x.rx
    /\ OfParty(res[j].peer, TheCast.i[k].own)

HonestKey(t) == \E w \in {"A", "B", "C"} : OfParty(t, w)
(* C02, C03 *)
Agreement ==
    \A k \in {1, 2} :
        /\ (HonestR(k) /\ Done(res[k]) /\ HonestKey(res[k].peer)) => ResMatches(res[k], k)
        /\ (HonestI(k) /\ Done(ini[k]) /\ HonestKey(ini[k].peer)) => IniMatches(ini[k], k)
(* whatever the peer is, an honest party never finishes with an altered message *)
NothingAltered ==
    \A k \in {1, 2} :
        /\ (HonestR(k) /\ Done(res[k])) => (\E j \in {1, 2} : res[k].rx = ini[j].tx)
        /\ (HonestI(k) /\ Done(ini[k])) => (\E j \in {1, 2} : ini[k].rx = res[j].tx)
(* C03: the requested identity *)
IdentityEnforced ==
    \A k \in {1, 2} :
        ini[k].stage \in {"out2", "done"} => d[ini[k].id].op = "hash" /\ d[ini[k].id].k = <<ini[k].peer>>
(* C06.  Sessions that share every seed and differ in a payload only share their keys.  Sessions
   that share the seeds of one side may be made into the same session by passing on the other
   pair's messages. *)
PayloadsOnly == TheCast.vary \in Payloads
Apart(x, y) ==
    /\ (TheCast.vary = "" \/ budget = Budget) => x.h # y.h
    /\ x.h = y.h => (x.tx = y.tx /\ x.rx = y.rx)
    /\ PayloadsOnly \/ x.h = y.h \/ {x.send, x.recv} \cap {y.send, y.recv} = {}
Separate ==
    \A x, y \in {1, 2} :
        /\ Done(ini[x]) => ini[x].send # ini[x].recv
        /\ Done(res[x]) => res[x].send # res[x].recv
        /\ (x # y /\ Done(ini[x]) /\ Done(ini[y])) => Apart(ini[x], ini[y])
        /\ (x # y /\ Done(res[x]) /\ Done(res[y])) => Apart(res[x], res[y])
        /\ (x # y /\ Done(ini[x]) /\ Done(res[y]) /\ ~ PayloadsOnly /\ ini[x].send = res[y].recv) => ini[x].h = res[y].h

----------------------------------------------------------------------------
(* What the adversary can compute: the closure of the sent messages, the public keys and its
   own seeds under composition and decomposition, within the terms of the behaviour. *)
Composable(K, t) ==
    LET n == d[t] all == \A i \in 1..Len(n.k) : n.k[i] \in K
    IN CASE n.op \in {"lit"} -> FALSE
         [] n.op \in {"str", "name", "lowpt"} -> TRUE
         [] n.op = "edh" -> \E i \in {1, 2} : n.k[i] \in K
         [] n.op = "kss" -> all \/ (d[n.k[2]].op = "lat" /\ d[n.k[2]].k[1] \in K /\
                                     \E c \in K : d[c].op = "kct" /\ d[c].k = n.k)
         [] OTHER -> all
Decomposed(K) == UNION {LET n == d[t] IN
                          CASE n.op = "cat" -> {n.k[i] : i \in 1..Len(n.k)}
                            [] n.op = "aead" -> IF n.k[1] \in K THEN {n.k[3]} ELSE {}
                            [] OTHER -> {} : t \in K}
RECURSIVE Closure(_)
Closure(K) ==
    LET N == K \cup Decomposed(K) \cup {t \in (1..Len(d)) \ K : Composable(K, t)}
    IN IF N = K THEN K ELSE Closure(N)

Values(f) == {f[g] : g \in DOMAIN f} \ {0}
Sent == UNION {UNION {Values(x.tx[i]) : i \in 1..Len(x.tx)} : x \in {ini[1], ini[2], res[1], res[2]}}
IsLit(t, s) == d[t].op = "lit" /\ d[t].s = s
SeedsOf(k, slots) == {t \in 1..Len(d) : \E s \in slots : IsLit(t, Atom(k, s))}
PublicTerms == {t \in 1..Len(d) : d[t].op \in {"ell", "lat"}}
AdvSeeds == {t \in 1..Len(d) : IsLit(t, "staticM")}
    \cup UNION {(IF AdvI(k) THEN SeedsOf(k, {"ei", "q0", "q1", "q", "r"}) ELSE {})
                \cup (IF AdvR(k) THEN SeedsOf(k, {"er", "kr", "ks", "p", "s"}) ELSE {}) : k \in {1, 2}}
Knows(extra) == Closure(Sent \cup PublicTerms \cup AdvSeeds \cup extra)
AllStatics == {t \in 1..Len(d) : d[t].op = "lit" /\ \E w \in {"A", "B", "C"} : d[t].s = "static" \o w}

(* Between honest parties the transport keys and all payloads of a completed session are
   secret, and stay secret when every long-term key leaks afterwards. *)
Secret(K) ==
    \A k \in {1, 2} :
        /\ (HonestI(k) /\ Done(ini[k]) /\ HonestKey(ini[k].peer)) =>
              {ini[k].send, ini[k].recv} \cup SeedsOf(k, {"q", "r"}) \cup {ini[k].pay[1], ini[k].pay[2]} \subseteq (1..Len(d)) \ K
        /\ (HonestR(k) /\ Done(res[k]) /\ HonestKey(res[k].peer)) =>
              {res[k].send, res[k].recv} \cup {res[k].pay[1], res[k].pay[2]} \cup SeedsOf(k, {"p", "s"}) \subseteq (1..Len(d)) \ K
(* the adversary did take part where a session with it completed: the closure is not too small *)
AdvLearns(K) == \A k \in {1, 2} :
    /\ (AdvI(k) /\ Done(res[k]) /\ ini[k].stage = "done") => {res[k].send, res[k].recv} \subseteq K
    /\ (AdvR(k) /\ Done(ini[k]) /\ Done(res[k])) => {ini[k].send, ini[k].recv} \subseteq K
Secrecy == (step > Len(Script)) => LET K == Knows({}) IN Secret(K) /\ AdvLearns(K)
ForwardSecrecy == (step > Len(Script)) => Secret(Knows(AllStatics))

Ended == step > Len(Script)
Show == (Emit /\ Ended) => PrintT("@@" \o ToJson([cast |-> cast, defs |-> d, log |-> log]))
=============================================================================
