-------------------------------- MODULE Kem --------------------------------
(* The key encapsulation mechanism as an abstract object (C12, C13): an ideal *)
(* public-key encryption with explicit coins inside the transform of          *)
(* Fujisaki and Okamoto with implicit rejection.                              *)
(*                                                                            *)
(* Keys, ciphertexts and secrets are symbolic values.  Public keys, secret    *)
(* keys and ciphertexts may be serialised and parsed back at any moment       *)
(* (`Reserialise'): a representation has no influence on any result.  The     *)
(* adversary encrypts with coins of its own, alters bits, splices two         *)
(* ciphertexts, presents arbitrary bytes, and presents ciphertexts to foreign *)
(* keys.                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Emit, Seeds, Flips

(* keys 1 and 3 have the same encryption key and different rejection secrets, *)
(* keys 2 and 3 share the rejection secret                                    *)
Keys == 1..3
A(k) == <<1, 2, 1>>[k]
Z(k) == <<1, 2, 2>>[k]
Foreign == 9                      \* a public-key hash that belongs to none of them
Hashes == {A(k) : k \in Keys} \cup {Foreign}

VARIABLES cts,     \* ciphertexts
          secrets, \* what encapsulation returned, with the ciphertext
          decs,    \* what decapsulation returned
          log
vars == <<cts, secrets, decs, log>>
----------------------------------------------------------------------------
Msg(seed) == <<"m", seed>>
Coins(m, h) == <<"coins", m, h>>
Pre(m, h) == <<"pre", m, h>>
Sec(r, c) == <<"ss", r, c>>
(* a ciphertext has two halves; the first does not depend on the message *)
Half(x) == [src |-> x, flips |-> {}]
Enc(a, m, r) == [u |-> Half(<<"u", a, r>>), v |-> Half(<<"v", a, r, m>>)]
Toggle(x, p) == [x EXCEPT !.flips = (@ \ {p}) \cup ({p} \ @)]
Altered(c, p) == IF p <= 4 THEN [c EXCEPT !.u = Toggle(@, p)] ELSE [c EXCEPT !.v = Toggle(@, p)]
Splice(c, e) == [u |-> c.u, v |-> e.v]
Junk(x) == [u |-> Half(<<"junk", x>>), v |-> Half(<<"junk", x>>)]

(* Decryption of an altered ciphertext usually still yields the message: the *)
(* scheme is malleable, only the re-encryption tells.                        *)
Near == {1, 2, 5}
Made(c) == c.u.src[1] = "u" /\ c.v.src[1] = "v" /\ c.u.src[2] = c.v.src[2] /\ c.u.src[3] = c.v.src[3]
Dec(a, c) == IF Made(c) /\ c.u.src[2] = a /\ c.u.flips \cup c.v.flips \subseteq Near THEN c.v.src[4] ELSE <<"garbage", a, c>>

Encaps(a, h, seed) ==
    LET m == Msg(seed) c == Enc(a, m, Coins(m, h)) IN [ct |-> c, ss |-> Sec(Pre(m, h), c)]
Accepts(k, a, h, c) == LET m == Dec(A(k), c) IN Enc(a, m, Coins(m, h)) = c
Decaps(k, a, h, c) ==
    Sec(IF Accepts(k, a, h, c) THEN Pre(Dec(A(k), c), h) ELSE <<"z", Z(k)>>, c)
----------------------------------------------------------------------------
E0 == [op |-> "", k |-> 0, j |-> 0, h |-> 0, c |-> 0, x |-> 0, y |-> 0, ok |-> TRUE]
Go == Len(log) < MaxOps
Ended == Len(log) >= MaxOps
Log(e) == log' = Append(log, e)

Init == cts = <<>> /\ secrets = {} /\ decs = {} /\ log = <<>>

Encapsulate(k, h, s) ==
    LET e == Encaps(A(k), h, s)
    IN /\ Go /\ cts' = Append(cts, e.ct)
       /\ secrets' = secrets \cup {[a |-> A(k), h |-> h, ct |-> e.ct, ss |-> e.ss]}
       /\ Log([E0 EXCEPT !.op = "enc", !.k = k, !.h = h, !.x = s])
       /\ UNCHANGED decs
(* a message and coins of the adversary's choice; 0: the coins an honest encapsulator derives *)
Craft(k, h, m, r) ==
    LET coins == IF r = 0 THEN Coins(<<"free", m>>, h) ELSE <<"free", r>>
    IN /\ Go /\ cts' = Append(cts, Enc(A(k), <<"free", m>>, coins))
       /\ Log([E0 EXCEPT !.op = "craft", !.k = k, !.h = h, !.x = m, !.y = r])
       /\ UNCHANGED <<secrets, decs>>
Flip(c, p) ==
    /\ Go /\ cts' = Append(cts, Altered(cts[c], p))
    /\ Log([E0 EXCEPT !.op = "flip", !.c = c, !.x = p])
    /\ UNCHANGED <<secrets, decs>>
Mix(c, e) ==
    /\ Go /\ cts' = Append(cts, Splice(cts[c], cts[e]))
    /\ Log([E0 EXCEPT !.op = "splice", !.c = c, !.x = e])
    /\ UNCHANGED <<secrets, decs>>
Arbitrary(x) ==
    /\ Go /\ cts' = Append(cts, Junk(x))
    /\ Log([E0 EXCEPT !.op = "junk", !.x = x])
    /\ UNCHANGED <<secrets, decs>>
Reserialise(what, i) ==
    /\ Go /\ Log([E0 EXCEPT !.op = what, !.c = i])
    /\ UNCHANGED <<cts, secrets, decs>>
Decapsulate(k, j, h, c) ==
    LET ss == Decaps(k, A(j), h, cts[c])
        hon == {i \in 1..Len(log) : log[i].op = "enc" /\ Encaps(A(log[i].k), log[i].h, log[i].x).ss = ss}
    IN /\ Go
       /\ decs' = decs \cup {[k |-> k, a |-> A(j), h |-> h, ct |-> cts[c], ss |-> ss]}
       \* y: the encapsulation that returned the same secret
       /\ Log([E0 EXCEPT !.op = "dec", !.k = k, !.j = j, !.h = h, !.c = c, !.ok = Accepts(k, A(j), h, cts[c]),
                         !.y = IF hon = {} THEN 0 ELSE CHOOSE i \in hon : TRUE])
       /\ UNCHANGED <<cts, secrets>>

C == 1..Len(cts)
Next ==
    \/ \E k \in Keys, h \in Hashes, s \in Seeds : Encapsulate(k, h, s)
    \/ \E k \in Keys, r \in {0, 1} : Craft(k, A(k), 1, r)
    \/ \E c \in C, p \in Flips : Flip(c, p)
    \/ \E c, e \in C : Mix(c, e)
    \/ Arbitrary(1)
    \/ \E k, j \in Keys, h \in Hashes, c \in C : Decapsulate(k, j, h, c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C12 *)
Recovered ==
    \A s \in secrets, e \in decs :
        e.ct = s.ct /\ A(e.k) = s.a /\ e.a = s.a /\ e.h = s.h => e.ss = s.ss
(* C13: nothing but that yields the secret of an encapsulation, *)
NothingElse ==
    \A s \in secrets, e \in decs :
        e.ss = s.ss => e.ct = s.ct /\ A(e.k) = s.a /\ e.a = s.a /\ e.h = s.h
(* a rejected ciphertext yields the function of rejection secret and ciphertext, nothing else *)
HonestFor(e) == \E m \in {Dec(A(e.k), e.ct)} : e.ct = Enc(e.a, m, Coins(m, e.h))
Implicit == \A e \in decs : ~ HonestFor(e) => e.ss = Sec(<<"z", Z(e.k)>>, e.ct)
Separate ==
    \A e, f \in decs : ~ HonestFor(e) => (e.ss = f.ss <=> ~ HonestFor(f) /\ Z(e.k) = Z(f.k) /\ e.ct = f.ct)
(* the order of the operations does not matter *)
Abstract == <<cts, secrets, decs, Len(log), IF Emit THEN log ELSE <<>> >>
Show == ~ Emit \/ ~ Ended \/ PrintT("@@" \o ToJson(log))
=============================================================================
