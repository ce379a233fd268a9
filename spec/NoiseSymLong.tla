---------------------------- MODULE NoiseSymLong ----------------------------
(* Long histories: hundreds of messages under one handshake key, so that the  *)
(* counter of the key passes one byte; mixing in between, a second key now    *)
(* and then, and at the end damaged, stale and foreign ciphertexts.           *)
EXTENDS NoiseSymGen

(* one sends, the other receives *)
Pass(o, l, n) ==
    /\ Go /\ CanCrypt(o) /\ CanCrypt(Other(o)) /\ hist["A"] = hist["B"]
    /\ LET x == Lit(d, l, n)
           r == SymEnc([d |-> x.d, ss |-> st[o].ss], x.t)
           q == SymDec([d |-> r.d, ss |-> st[Other(o)].ss], r.ct)
           m == [ct |-> r.ct, by |-> o, hist |-> hist[o], pt |-> x.t]
       IN /\ Assert(q.ok /\ q.pt = x.t, "equal histories")
          /\ d' = q.d
          /\ st' = [y \in Obj |-> Live(IF y = o THEN r.ss ELSE q.ss)]
          /\ hist' = [y \in Obj |-> HistAdd(hist[y], "msg", x.t)]
          (* the first messages and the last few are kept for stale deliveries *)
          /\ pool' = {y \in pool : y.hist.n \in {0, 1, 127, 255} \/ y.hist.n + 3 > hist[o].n} \cup {m}
          /\ log' = log \o << [E0("enc", o) EXCEPT !.x = x.t, !.y = r.ct, !.h = r.ss.h],
                              [E0("dec", Other(o)) EXCEPT !.x = r.ct, !.y = q.pt, !.h = q.ss.h] >>

InStep == Hs("A") /\ Hs("B") /\ hist["A"] = hist["B"]
LongNext ==
    \E o \in Pick(Obj), l \in Pick(Labels), n \in Pick(Lens), q \in Pick(1..1000) :
        IF InStep /\ ~ CanCrypt("A") THEN MixBoth(IF q <= 500 THEN "mixkey" ELSE "mixpsk", l, n)
        ELSE IF InStep /\ Len(log) < MaxOps - 12
        THEN IF q <= 10 THEN MixBoth("mixhash", l, n)
             ELSE IF q <= 11 THEN MixBoth("mixkey", l, n)
             ELSE Pass(o, l, n)
        ELSE GenNext
LongSpec == (GenInit /\ hist["A"] = hist["B"]) /\ [][LongNext]_vars
=============================================================================
