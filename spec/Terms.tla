------------------------------- MODULE Terms -------------------------------
(* Symbolic terms.  A term table is a sequence of nodes and a term is an     *)
(* index into it; every node is stored once (hash-consing), so two terms are *)
(* equal exactly when their indices are.  The table is what the conformance  *)
(* harness evaluates to bytes with primitives of its own.                    *)
EXTENDS Naturals, Sequences

Node(op, s, k, p) == [op |-> op, s |-> s, k |-> k, p |-> p]

Known(d, n)  == \E i \in 1..Len(d) : d[i] = n
Put(d, n)    == IF Known(d, n) THEN d ELSE Append(d, n)
Ix(d, n)     == CHOOSE i \in 1..Len(d) : d[i] = n

(* adds a node; result is the new table and the term *)
Mk(d, op, s, k, p) ==
    LET n == Node(op, s, k, p)
        e == Put(d, n)
    IN [d |-> e, t |-> Ix(e, n)]

Lit(d, label, len)     == Mk(d, "lit", label, <<>>, <<len>>)   \* arbitrary bytes
Str(d, s)              == Mk(d, "str", s, <<>>, <<>>)          \* these very characters
Cat(d, ks)             == Mk(d, "cat", "", ks, <<>>)
Hash(d, ks)            == Mk(d, "hash", "", ks, <<>>)          \* hash of the concatenation
Hkdf(d, ck, ikm, n, i) == Mk(d, "hkdf", "", <<ck, ikm>>, <<n, i>>)
HkdfKey(d, ck, ikm, n, i) == Mk(d, "hkdfk", "", <<ck, ikm>>, <<n, i>>)  \* cut to the key length
Aead(d, key, n, ad, pt)   == Mk(d, "aead", "", <<key, ad, pt>>, <<n>>)  \* ciphertext || tag
(* damaged bytes: kind 0 first byte, 1 last byte, 2 middle, 3 cut by one, 4 one byte more *)
Damage(d, x, kind)     == Mk(d, "dmg", "", <<x>>, <<kind>>)

(* the result of opening x with (key, n, ad): the plaintext, or 0 *)
Open(d, key, n, ad, x) ==
    LET m == d[x]
    IN IF m.op = "aead" /\ m.k[1] = key /\ m.k[2] = ad /\ m.p[1] = n THEN m.k[3] ELSE 0
=============================================================================
