-------------------------------- MODULE Sym --------------------------------
(* The Noise symmetric state (Noise specification, section 5.2), on terms.   *)
(* Every operator takes and returns [d, ss]: the term table and the state.   *)
(* ss.key = 0 means that no key has been established yet.                    *)
EXTENDS Terms

SymInit(d, name) ==
    LET x == Mk(d, "name", name, <<>>, <<>>)   \* padded with zeros, or hashed when too long
    IN [d |-> x.d, ss |-> [h |-> x.t, ck |-> x.t, key |-> 0, n |-> 0]]

SymMixHash(st, x) ==
    LET y == Hash(st.d, <<st.ss.h, x>>)
    IN [d |-> y.d, ss |-> [st.ss EXCEPT !.h = y.t]]

SymMixKey(st, ikm) ==
    LET c == Hkdf(st.d, st.ss.ck, ikm, 2, 1)
        k == HkdfKey(c.d, st.ss.ck, ikm, 2, 2)
    IN [d |-> k.d, ss |-> [h |-> st.ss.h, ck |-> c.t, key |-> k.t, n |-> 0]]

(* MixKeyAndHash: the second output goes to the hash in its full length *)
SymMixPsk(st, psk) ==
    LET c == Hkdf(st.d, st.ss.ck, psk, 3, 1)
        m == Hkdf(c.d, st.ss.ck, psk, 3, 2)
        k == HkdfKey(m.d, st.ss.ck, psk, 3, 3)
        h == Hash(k.d, <<st.ss.h, m.t>>)
    IN [d |-> h.d, ss |-> [h |-> h.t, ck |-> c.t, key |-> k.t, n |-> 0]]

SymEnc(st, pt) ==
    LET c == Aead(st.d, st.ss.key, st.ss.n, st.ss.h, pt)
        h == Hash(c.d, <<st.ss.h, c.t>>)
    IN [d |-> h.d, ss |-> [st.ss EXCEPT !.h = h.t, !.n = @ + 1], ct |-> c.t]

SymDec(st, ct) ==
    LET pt == Open(st.d, st.ss.key, st.ss.n, st.ss.h, ct)
        h  == Hash(st.d, <<st.ss.h, ct>>)
    IN IF pt = 0 THEN [ok |-> FALSE, pt |-> 0, d |-> st.d, ss |-> st.ss]
       ELSE [ok |-> TRUE, pt |-> pt, d |-> h.d, ss |-> [st.ss EXCEPT !.h = h.t, !.n = @ + 1]]

(* Split: one key per direction; the first one is the sending key of the initiator *)
SymSplit(st) ==
    LET z == Str(st.d, "")
        a == HkdfKey(z.d, st.ss.ck, z.t, 2, 1)
        b == HkdfKey(a.d, st.ss.ck, z.t, 2, 2)
    IN [d |-> b.d, k1 |-> a.t, k2 |-> b.t]
=============================================================================
