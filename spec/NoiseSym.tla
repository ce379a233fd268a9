------------------------------ MODULE NoiseSym ------------------------------
(* Two symmetric states driven by arbitrary operation sequences, sometimes    *)
(* in step and sometimes apart, exchanging genuine, damaged and foreign       *)
(* ciphertexts.  `hist' is what C11 calls the history of an object: what was  *)
(* mixed into its hash, what was mixed into its key, and how many messages    *)
(* followed.  (Mixing into the hash and mixing into the key commute in Noise, *)
(* so a plain sequence of operations would tell apart equal states.)          *)
EXTENDS Sym, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names,      \* protocol names
          Lens,       \* lengths of data
          Labels,     \* names of data atoms
          MaxN,       \* messages under one key (the harness instantiates one type for each)
      MaxOps,     \* length of a behaviour
          Emit        \* print behaviours

SimLens == {0, 1, 31, 32, 33, 47, 48, 49, 63, 64, 65, 71, 72, 73, 112, 120, 127, 128, 129, 136, 137, 200, 272, 300, 544, 545, 1023, 1136, 4096, 4351, 20000, 65535}
SimNames == {"Noise_XX_x", "",
             "Noise_XX_25519_ChaChaPoly_SHA256",                                       \* 32 characters
             "Noise_XXpsk3_448_ChaChaPoly_SHA256",
             "Noise_XXhfs+psk3_25519+Kyber_ChaChaPoly_SHA3/256_with_a_long_name",      \* more than 64
             "Noise_XXhfs+psk3_25519+Kyber_ChaChaPoly_SHA3/256_of_64_character"}

Obj == {"A", "B"}
VARIABLES d, st, hist, pool, log
vars == <<d, st, hist, pool, log>>

\* st[o] = [mode, ss, k1, k2, sn, rn]: handshake, transport (after Split) or dead
Live(ss) == [mode |-> "hs", ss |-> ss, k1 |-> 0, k2 |-> 0, sn |-> 0, rn |-> 0]

NewHist(x) == [hs |-> <<[op |-> "new", x |-> x, ks |-> <<>>, n |-> 0]>>, ks |-> <<>>, n |-> 0]
HistAdd(hi, kind, x) ==
    LET item == [op |-> kind, x |-> x, ks |-> IF kind = "mixhash" THEN <<>> ELSE hi.ks,
                 n |-> IF kind = "msg" THEN hi.n ELSE 0]
    IN CASE kind = "mixhash" -> [hi EXCEPT !.hs = Append(@, item)]
         [] kind = "mixkey"  -> [hi EXCEPT !.ks = Append(@, <<kind, x>>), !.n = 0]
         [] kind = "mixpsk"  -> [hs |-> Append(hi.hs, item), ks |-> Append(hi.ks, <<kind, x>>), n |-> 0]
         [] kind = "msg"     -> [hi EXCEPT !.hs = Append(@, item), !.n = @ + 1]

E0(op, o) == [op |-> op, o |-> o, x |-> 0, y |-> 0, ok |-> TRUE, h |-> 0]

Init ==
    \E na \in Names, nb \in Names :
        LET a == SymInit(<<>>, na)
            b == SymInit(a.d, nb)
        IN /\ d = b.d
           /\ st = [A |-> Live(a.ss), B |-> Live(b.ss)]
           /\ hist = [A |-> NewHist(a.ss.h), B |-> NewHist(b.ss.h)]
           /\ pool = {}
           /\ log = << [E0("new", "A") EXCEPT !.x = a.ss.h, !.h = a.ss.h],
                       [E0("new", "B") EXCEPT !.x = b.ss.h, !.h = b.ss.h] >>

Go == Len(log) < MaxOps
Ended == Len(log) >= MaxOps

(* one mixing operation of object o with data term x, on table e *)
MixOn(e, o, kind, x) ==
    LET s == [d |-> e, ss |-> st[o].ss]
    IN CASE kind = "mixhash" -> SymMixHash(s, x)
         [] kind = "mixkey"  -> SymMixKey(s, x)
         [] kind = "mixpsk"  -> SymMixPsk(s, x)

MixKinds == {"mixhash", "mixkey", "mixpsk"}

MixOne(o, kind, lab, len) ==
    /\ Go /\ st[o].mode = "hs"
    /\ LET x == Lit(d, lab, len)
           r == MixOn(x.d, o, kind, x.t)
       IN /\ d' = r.d
          /\ st' = [st EXCEPT ![o] = Live(r.ss)]
          /\ hist' = [hist EXCEPT ![o] = HistAdd(@, kind, x.t)]
          /\ log' = Append(log, [E0(kind, o) EXCEPT !.x = x.t, !.h = r.ss.h])
    /\ UNCHANGED pool

MixBoth(kind, lab, len) ==
    /\ Go /\ st["A"].mode = "hs" /\ st["B"].mode = "hs"
    /\ LET x == Lit(d, lab, len)
           a == MixOn(x.d, "A", kind, x.t)
           b == MixOn(a.d, "B", kind, x.t)
       IN /\ d' = b.d
          /\ st' = [A |-> Live(a.ss), B |-> Live(b.ss)]
          /\ hist' = [o \in Obj |-> HistAdd(hist[o], kind, x.t)]
          /\ log' = log \o << [E0(kind, "A") EXCEPT !.x = x.t, !.h = a.ss.h],
                              [E0(kind, "B") EXCEPT !.x = x.t, !.h = b.ss.h] >>
    /\ UNCHANGED pool

CanCrypt(o) == st[o].mode = "hs" /\ st[o].ss.key # 0 /\ st[o].ss.n < MaxN

Encrypt(o, lab, len) ==
    /\ Go /\ CanCrypt(o)
    /\ LET x == Lit(d, lab, len)
           r == SymEnc([d |-> x.d, ss |-> st[o].ss], x.t)
       IN /\ d' = r.d
          /\ st' = [st EXCEPT ![o] = Live(r.ss)]
          /\ hist' = [hist EXCEPT ![o] = HistAdd(@, "msg", x.t)]
          /\ pool' = pool \cup {[ct |-> r.ct, by |-> o, hist |-> hist[o], pt |-> x.t]}
          /\ log' = Append(log, [E0("enc", o) EXCEPT !.x = x.t, !.y = r.ct, !.h = r.ss.h])

(* a decryption attempt; after a failure the object is gone (the call consumes it) *)
DecryptTerm(e, o, ct) ==
    LET r == SymDec([d |-> e, ss |-> st[o].ss], ct)
    IN /\ d' = r.d
       /\ st' = [st EXCEPT ![o] = IF r.ok THEN Live(r.ss) ELSE [@ EXCEPT !.mode = "dead"]]
       /\ hist' = [hist EXCEPT ![o] = IF r.ok THEN HistAdd(@, "msg", r.pt) ELSE @]
       /\ log' = Append(log, [E0("dec", o) EXCEPT !.x = ct, !.y = r.pt, !.ok = r.ok, !.h = r.ss.h])
       /\ UNCHANGED pool

Decrypt(o) ==
    /\ Go /\ CanCrypt(o)
    /\ \E m \in pool : DecryptTerm(d, o, m.ct)

DecryptDamaged(o) ==
    /\ Go /\ CanCrypt(o)
    /\ \E m \in pool, kind \in 0..4 :
          LET x == Damage(d, m.ct, kind) IN DecryptTerm(x.d, o, x.t)

Finish(o) ==
    /\ Go /\ st[o].mode = "hs"
    /\ LET r == SymSplit([d |-> d, ss |-> st[o].ss])
       IN /\ d' = r.d
          /\ st' = [st EXCEPT ![o].mode = "tr",
                              ![o].k1 = IF o = "A" THEN r.k1 ELSE r.k2,   \* B swaps
                              ![o].k2 = IF o = "A" THEN r.k2 ELSE r.k1]
          /\ log' = Append(log, [E0("finish", o) EXCEPT !.h = st[o].ss.h])
    /\ UNCHANGED <<hist, pool>>

SendT(o, lab, len) ==
    /\ Go /\ st[o].mode = "tr"
    /\ LET x == Lit(d, lab, len)
           z == Str(x.d, "")
           c == Aead(z.d, st[o].k1, st[o].sn, z.t, x.t)
       IN /\ d' = c.d
          /\ st' = [st EXCEPT ![o].sn = @ + 1]
          /\ log' = Append(log, [E0("tenc", o) EXCEPT !.x = x.t, !.y = c.t])
    /\ UNCHANGED <<hist, pool>>

Next ==
    \/ \E o \in Obj, k \in MixKinds, l \in Labels, n \in Lens : MixOne(o, k, l, n)
    \/ \E k \in MixKinds, l \in Labels, n \in Lens : MixBoth(k, l, n)
    \/ \E o \in Obj, l \in Labels, n \in Lens : Encrypt(o, l, n)
    \/ \E o \in Obj : Decrypt(o)
    \/ \E o \in Obj : DecryptDamaged(o)
    \/ \E o \in Obj : Finish(o)
    \/ \E o \in Obj, l \in Labels, n \in Lens : SendT(o, l, n)

Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* C11: what a decryption accepts is decided by the histories alone *)
LastStep == log[Len(log)]
HistoryDecides ==
    \A o \in Obj : \A m \in pool :
        CanCrypt(o) =>
            ((Open(d, st[o].ss.key, st[o].ss.n, st[o].ss.h, m.ct) # 0) <=> (hist[o] = m.hist))

(* equal histories are the same as equal hash, chaining key, key and counter *)
SameHistorySameState ==
    (st["A"].mode = "hs" /\ st["B"].mode = "hs") =>
        ((hist["A"] = hist["B"]) <=> (st["A"].ss = st["B"].ss))

(* an object never encrypts twice with the same key and counter *)
NoNonceReuse ==
    \A i, j \in 1..Len(log) :
        (i < j /\ log[i].op \in {"enc", "tenc"} /\ log[j].op \in {"enc", "tenc"} /\ log[i].o = log[j].o)
            => LET x == d[log[i].y] y == d[log[j].y] IN ~ (x.k[1] = y.k[1] /\ x.p = y.p)

Show == (Emit /\ Ended) => PrintT("@@" \o ToJson([defs |-> d, log |-> log]))
=============================================================================
