--------------------------- MODULE NoisePatterns ---------------------------
(* The Noise handshake patterns (Noise specification, sections 7, 9 and 18)  *)
(* executed by both roles on symmetric states.  TLC checks agreement for     *)
(* every pattern; the printed behaviours are the operation sequences the     *)
(* harness performs on the real SymmetricState with the published vectors.   *)
EXTENDS Sym, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Chosen, Emit

P(i, r, m) == [pi |-> i, pr |-> r, m |-> m]
Fundamental ==
  "N" :> P(<<>>, <<"s">>, << <<"e","es">> >>) @@
  "K" :> P(<<"s">>, <<"s">>, << <<"e","es","ss">> >>) @@
  "X" :> P(<<>>, <<"s">>, << <<"e","es","s","ss">> >>) @@
  "NN" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee">> >>) @@
  "NK" :> P(<<>>, <<"s">>, << <<"e","es">>, <<"e","ee">> >>) @@
  "NX" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee","s","es">> >>) @@
  "KN" :> P(<<"s">>, <<>>, << <<"e">>, <<"e","ee","se">> >>) @@
  "KK" :> P(<<"s">>, <<"s">>, << <<"e","es","ss">>, <<"e","ee","se">> >>) @@
  "KX" :> P(<<"s">>, <<>>, << <<"e">>, <<"e","ee","se","s","es">> >>) @@
  "XN" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee">>, <<"s","se">> >>) @@
  "XK" :> P(<<>>, <<"s">>, << <<"e","es">>, <<"e","ee">>, <<"s","se">> >>) @@
  "XX" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee","s","es">>, <<"s","se">> >>) @@
  "IN" :> P(<<>>, <<>>, << <<"e","s">>, <<"e","ee","se">> >>) @@
  "IK" :> P(<<>>, <<"s">>, << <<"e","es","s","ss">>, <<"e","ee","se">> >>) @@
  "IX" :> P(<<>>, <<>>, << <<"e","s">>, <<"e","ee","se","s","es">> >>) @@
  "NK1" :> P(<<>>, <<"s">>, << <<"e">>, <<"e","ee","es">> >>) @@
  "NX1" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee","s">>, <<"es">> >>) @@
  "X1N" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee">>, <<"s">>, <<"se">> >>) @@
  "X1K" :> P(<<>>, <<"s">>, << <<"e","es">>, <<"e","ee">>, <<"s">>, <<"se">> >>) @@
  "XK1" :> P(<<>>, <<"s">>, << <<"e">>, <<"e","ee","es">>, <<"s","se">> >>) @@
  "X1K1" :> P(<<>>, <<"s">>, << <<"e">>, <<"e","ee","es">>, <<"s">>, <<"se">> >>) @@
  "X1X" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee","s","es">>, <<"s">>, <<"se">> >>) @@
  "XX1" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee","s">>, <<"es","s","se">> >>) @@
  "X1X1" :> P(<<>>, <<>>, << <<"e">>, <<"e","ee","s">>, <<"es","s">>, <<"se">> >>) @@
  "K1N" :> P(<<"s">>, <<>>, << <<"e">>, <<"e","ee">>, <<"se">> >>) @@
  "K1K" :> P(<<"s">>, <<"s">>, << <<"e","es">>, <<"e","ee">>, <<"se">> >>) @@
  "KK1" :> P(<<"s">>, <<"s">>, << <<"e">>, <<"e","ee","se","es">> >>) @@
  "K1K1" :> P(<<"s">>, <<"s">>, << <<"e">>, <<"e","ee","es">>, <<"se">> >>) @@
  "K1X" :> P(<<"s">>, <<>>, << <<"e">>, <<"e","ee","s","es">>, <<"se">> >>) @@
  "KX1" :> P(<<"s">>, <<>>, << <<"e">>, <<"e","ee","se","s">>, <<"es">> >>) @@
  "K1X1" :> P(<<"s">>, <<>>, << <<"e">>, <<"e","ee","s">>, <<"se","es">> >>) @@
  "I1N" :> P(<<>>, <<>>, << <<"e","s">>, <<"e","ee">>, <<"se">> >>) @@
  "I1K" :> P(<<>>, <<"s">>, << <<"e","es","s">>, <<"e","ee">>, <<"se">> >>) @@
  "IK1" :> P(<<>>, <<"s">>, << <<"e","s">>, <<"e","ee","se","es">> >>) @@
  "I1K1" :> P(<<>>, <<"s">>, << <<"e","s">>, <<"e","ee","es">>, <<"se">> >>) @@
  "I1X" :> P(<<>>, <<>>, << <<"e","s">>, <<"e","ee","s","es">>, <<"se">> >>) @@
  "IX1" :> P(<<>>, <<>>, << <<"e","s">>, <<"e","ee","se","s">>, <<"es">> >>) @@
  "I1X1" :> P(<<>>, <<>>, << <<"e","s">>, <<"e","ee","s">>, <<"se","es">> >>)

(* pskN: at the start of the first message (0) or at the end of message N *)
WithPsk(b, n) ==
    [b EXCEPT !.m = [j \in 1..Len(b.m) |->
        IF n = 0 /\ j = 1 THEN <<"psk">> \o b.m[1]
        ELSE IF n = j THEN b.m[j] \o <<"psk">> ELSE b.m[j]]]

Psk == "Npsk0" :> <<"N",0>> @@ "Kpsk0" :> <<"K",0>> @@ "Xpsk1" :> <<"X",1>> @@
         "NNpsk0" :> <<"NN",0>> @@ "NNpsk2" :> <<"NN",2>> @@ "NKpsk0" :> <<"NK",0>> @@ "NKpsk2" :> <<"NK",2>> @@
         "NXpsk2" :> <<"NX",2>> @@ "XNpsk3" :> <<"XN",3>> @@ "XKpsk3" :> <<"XK",3>> @@ "XXpsk3" :> <<"XX",3>> @@
         "KNpsk0" :> <<"KN",0>> @@ "KNpsk2" :> <<"KN",2>> @@ "KKpsk0" :> <<"KK",0>> @@ "KKpsk2" :> <<"KK",2>> @@
         "KXpsk2" :> <<"KX",2>> @@ "INpsk1" :> <<"IN",1>> @@ "INpsk2" :> <<"IN",2>> @@ "IKpsk1" :> <<"IK",1>> @@
         "IKpsk2" :> <<"IK",2>> @@ "IXpsk2" :> <<"IX",2>> 

AllNames == DOMAIN Fundamental \cup DOMAIN Psk
Pattern(nm) == IF nm \in DOMAIN Psk THEN WithPsk(Fundamental[Psk[nm][1]], Psk[nm][2]) ELSE Fundamental[nm]
UsesPsk(p) == \E j \in 1..Len(p.m) : \E i \in 1..Len(p.m[j]) : p.m[j][i] = "psk"

VARIABLES nm, d, ssi, ssr, msg, tr, log
vars == <<nm, d, ssi, ssr, msg, tr, log>>

E0(op, o) == [op |-> op, o |-> o, x |-> 0, y |-> 0, ok |-> TRUE, h |-> 0]

(* keys are atoms ie re is rs; xpub is the public key, xdh the shared secret *)
Pub(e, kk) == LET a == Lit(e, kk, 32) IN Mk(a.d, "xpub", "", <<a.t>>, <<>>)
Dh(e, k1, k2) == LET a == Lit(e, k1, 32) b == Lit(a.d, k2, 32)
                 IN Mk(b.d, "xdh", "", IF a.t < b.t THEN <<a.t, b.t>> ELSE <<b.t, a.t>>, <<>>)

(* one context: table, state of the initiator and of the responder, log *)
Both(c, op, x) ==
    LET f(s) == CASE op = "mixhash" -> SymMixHash(s, x) [] op = "mixkey" -> SymMixKey(s, x) [] op = "mixpsk" -> SymMixPsk(s, x)
        a == f([d |-> c.d, ss |-> c.i])
        b == f([d |-> a.d, ss |-> c.r])
    IN [c EXCEPT !.d = b.d, !.i = a.ss, !.r = b.ss,
                 !.log = @ \o << [E0(op, "A") EXCEPT !.x = x, !.h = a.ss.h], [E0(op, "B") EXCEPT !.x = x, !.h = b.ss.h] >>]

(* sender s \in {"A", "B"}: EncryptAndHash on one side, DecryptAndHash on the other *)
Transfer(c, s, x) ==
    LET snd == IF s = "A" THEN c.i ELSE c.r
        rcv == IF s = "A" THEN c.r ELSE c.i
        o   == IF s = "A" THEN "B" ELSE "A"
    IN IF snd.key = 0
       THEN LET b == Both(c, "mixhash", x) IN [b EXCEPT !.out = Append(@, x)]
       ELSE LET e  == SymEnc([d |-> c.d, ss |-> snd], x)
                r  == SymDec([d |-> e.d, ss |-> rcv], e.ct)
                i2 == IF s = "A" THEN e.ss ELSE r.ss
                r2 == IF s = "A" THEN r.ss ELSE e.ss
            IN [c EXCEPT !.d = r.d, !.i = i2, !.r = r2, !.out = Append(@, e.ct),
                         !.log = @ \o << [E0("enc", s) EXCEPT !.x = x, !.y = e.ct, !.h = e.ss.h],
                                         [E0("dec", o) EXCEPT !.x = e.ct, !.y = r.pt, !.ok = r.ok, !.h = r.ss.h] >>]

Ek(s) == IF s = "A" THEN "ie" ELSE "re"
Sk(s) == IF s = "A" THEN "is" ELSE "rs"

Token(s, psk, c, t) ==
    CASE t = "e"  -> LET q == Pub(c.d, Ek(s))
                         b == Both([c EXCEPT !.d = q.d], "mixhash", q.t)
                         b2 == IF psk THEN Both(b, "mixkey", q.t) ELSE b
                     IN [b2 EXCEPT !.out = Append(@, q.t)]
      [] t = "s"  -> LET q == Pub(c.d, Sk(s)) IN Transfer([c EXCEPT !.d = q.d], s, q.t)
      [] t = "ee" -> LET q == Dh(c.d, "ie", "re") IN Both([c EXCEPT !.d = q.d], "mixkey", q.t)
      [] t = "es" -> LET q == Dh(c.d, "ie", "rs") IN Both([c EXCEPT !.d = q.d], "mixkey", q.t)
      [] t = "se" -> LET q == Dh(c.d, "is", "re") IN Both([c EXCEPT !.d = q.d], "mixkey", q.t)
      [] t = "ss" -> LET q == Dh(c.d, "is", "rs") IN Both([c EXCEPT !.d = q.d], "mixkey", q.t)
      [] t = "psk" -> LET q == Lit(c.d, "psk", 32) IN Both([c EXCEPT !.d = q.d], "mixpsk", q.t)

Premessage(c, s, ts) ==
    FoldSeq(LAMBDA t, a : LET q == Pub(a.d, IF t = "e" THEN Ek(s) ELSE Sk(s)) IN Both([a EXCEPT !.d = q.d], "mixhash", q.t), c, ts)

Init ==
    /\ nm \in Chosen
    /\ LET p == Pattern(nm)
           a == SymInit(<<>>, "protocol")
           pl == Str(a.d, "")
           pro == Lit(pl.d, "prologue", 0)
           c0 == [d |-> pro.d, i |-> a.ss, r |-> a.ss, out |-> <<>>,
                  log |-> << [E0("new", "A") EXCEPT !.x = a.ss.h, !.h = a.ss.h], [E0("new", "B") EXCEPT !.x = a.ss.h, !.h = a.ss.h] >>]
           c1 == Both(c0, "mixhash", pro.t)
           c2 == Premessage(c1, "A", p.pi)
           c3 == Premessage(c2, "B", p.pr)
       IN /\ d = c3.d /\ ssi = c3.i /\ ssr = c3.r /\ log = c3.log
    /\ msg = 1 /\ tr = <<>>

PayloadName(j) == "payload" \o ToString(j)

Message ==
    /\ msg <= Len(Pattern(nm).m)
    /\ LET p == Pattern(nm)
           s == IF msg % 2 = 1 THEN "A" ELSE "B"
           c0 == [d |-> d, i |-> ssi, r |-> ssr, out |-> <<>>, log |-> log]
           c1 == FoldLeft(LAMBDA c, t : Token(s, UsesPsk(p), c, t), c0, p.m[msg])
           pay == Lit(c1.d, PayloadName(msg), 0)
           c2 == Transfer([c1 EXCEPT !.d = pay.d], s, pay.t)
           all == Cat(c2.d, c2.out)
       IN /\ d' = all.d /\ ssi' = c2.i /\ ssr' = c2.r
          /\ log' = Append(c2.log, [E0("wire", s) EXCEPT !.x = all.t])
    /\ msg' = msg + 1
    /\ UNCHANGED <<nm, tr>>

(* after Split: messages go on alternating; one-way patterns only from the initiator *)
OneWay == nm \in {"N", "K", "X", "Npsk0", "Kpsk0", "Xpsk1"}
Finish ==
    /\ msg = Len(Pattern(nm).m) + 1 /\ tr = <<>>
    /\ LET a == SymSplit([d |-> d, ss |-> ssi])
       IN /\ d' = a.d /\ tr' = <<a.k1, a.k2, 0, 0>>
          /\ log' = log \o << [E0("finish", "A") EXCEPT !.h = ssi.h], [E0("finish", "B") EXCEPT !.h = ssr.h],
                              [E0("hash", "A") EXCEPT !.x = ssi.h] >>
    /\ UNCHANGED <<nm, ssi, ssr, msg>>

Total == 6   \* every published vector has six messages
Transport ==
    /\ tr # <<>> /\ msg <= Total
    /\ LET s == IF OneWay \/ msg % 2 = 1 THEN "A" ELSE "B"
           o == IF s = "A" THEN "B" ELSE "A"
           i == IF s = "A" THEN 1 ELSE 2
           pay == Lit(d, PayloadName(msg), 0)
           z == Str(pay.d, "")
           c == Aead(z.d, tr[i], tr[i + 2], z.t, pay.t)
       IN /\ d' = c.d /\ tr' = [tr EXCEPT ![i + 2] = @ + 1]
          /\ log' = log \o << [E0("tenc", s) EXCEPT !.x = pay.t, !.y = c.t], [E0("tdec", o) EXCEPT !.x = c.t, !.y = pay.t],
                              [E0("wire", s) EXCEPT !.x = c.t] >>
    /\ msg' = msg + 1
    /\ UNCHANGED <<nm, ssi, ssr>>

Next == Message \/ Finish \/ Transport
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Agree == ssi = ssr
AllAccepted == \A i \in 1..Len(log) : log[i].ok
Done == tr # <<>> /\ msg > Total
Show == (Emit /\ Done) => PrintT("@@" \o ToJson([pattern |-> nm, defs |-> d, log |-> log]))
=============================================================================
