------------------------------ MODULE KyberPke ------------------------------
(* The lattice KEM of vru-kyber as exact arithmetic, over bytes (C14).        *)
(*                                                                            *)
(* Coefficients modulo q = 7681, polynomials modulo X^256 + 1, the transform  *)
(* evaluates a polynomial at the odd powers of psi = 62 in bit-reversed order.*)
(* Hash outputs are inputs of the specification: an instance is a record of   *)
(* what the implementation computed together with the values of the hash      *)
(* functions at the points the specification asks for.                        *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

Q   == 7681
Psi == 62
Ix  == 0..255

T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
----------------------------------------------------------------------------
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384>>
P2(n) == Pow2[n + 1]
BitOf(x, b) == (x \div P2(b)) % 2
Count(n) == [i \in 1..n |-> i - 1]          \* <<0, ..., n-1>>
Sum(n, f(_)) == FoldLeft(LAMBDA s, i : s + f(i), 0, Count(n))
SumQ(n, f(_)) == FoldLeft(LAMBDA s, i : (s + f(i)) % Q, 0, Count(n))

Brv(i) == Sum(8, LAMBDA b : BitOf(i, b) * P2(7 - b))
PsiPow == TLCEval(FoldLeft(LAMBDA s, i : Append(s, (s[Len(s)] * Psi) % Q), <<1>>, Count(511)))
(* 256 * 7651 = 1 modulo q *)
NInv == 7651
(* the matrices of the transforms; kept in a variable, so that TLC computes them once *)
VARIABLES ntt, intt, inst, checked
vars == <<ntt, intt, inst, checked>>
Tables ==
    \E pow \in {PsiPow}, brv \in {TLCEval([i \in Ix |-> Brv(i)])} :
        /\ ntt  = TLCEval([i \in Ix |-> TLCEval([j \in Ix |-> pow[(((2 * brv[i] + 1) * j) % 512) + 1]])])
        /\ intt = TLCEval([j \in Ix |-> TLCEval([i \in Ix |-> (NInv * pow[((512 - (((2 * brv[i] + 1) * j) % 512)) % 512) + 1]) % Q])])

Apply(m, a) == TLCEval([i \in Ix |-> LET row == m[i] IN SumQ(256, LAMBDA j : row[j] * a[j])])
Ntt(a)  == Apply(ntt, a)
INtt(a) == Apply(intt, a)
Plus(a, b)  == TLCEval([i \in Ix |-> (a[i] + b[i]) % Q])
Minus(a, b) == TLCEval([i \in Ix |-> (a[i] + Q - b[i]) % Q])
(* sum of products of two vectors of transformed polynomials *)
Dot(w, a, b) == TLCEval([i \in Ix |-> SumQ(w, LAMBDA k : a[k + 1][i] * b[k + 1][i])])
----------------------------------------------------------------------------
(* coefficients are packed little-endian, without gaps *)
Unpack(bytes, bits, n) ==
    TLCEval([i \in 0..(n - 1) |-> Sum(bits, LAMBDA b : LET p == i * bits + b IN BitOf(bytes[(p \div 8) + 1], p % 8) * P2(b))])
Pack(c, bits, n) ==
    TLCEval([k \in 1..((n * bits) \div 8) |-> Sum(8, LAMBDA b : LET p == (k - 1) * 8 + b IN BitOf(c[p \div bits], p % bits) * P2(b))])
Compress(a, bits)   == Pack(TLCEval([i \in Ix |-> ((a[i] * P2(bits) + (Q \div 2)) \div Q) % P2(bits)]), bits, 256)
Decompress(v, bits) == LET u == Unpack(v, bits, 256) IN TLCEval([i \in Ix |-> (u[i] * Q + P2(bits - 1)) \div P2(bits)])

Slice(v, from, len) == SubSeq(v, from + 1, from + len)
Flat(s) == FlattenSeq(s)
----------------------------------------------------------------------------
(* hash functions: looked up in the instance *)
Ask(t, f, in) == LET i == CHOOSE i \in 1..Len(t.hashes) : t.hashes[i].f = f /\ t.hashes[i].input = in IN t.hashes[i].output

Eta(w) == <<0, 5, 4, 3>>[w]
(* centred binomial noise from SHAKE256(seed || nonce) *)
Noise(t, seed, nonce) ==
    LET e == Eta(t.w)
        s == Ask(t, "shake256", Append(seed, nonce))
        bit(p) == BitOf(s[(p \div 8) + 1], p % 8)
    IN TLCEval([i \in Ix |-> (Q + Sum(e, LAMBDA j : bit(2 * e * i + j)) - Sum(e, LAMBDA j : bit(2 * e * i + e + j))) % Q])
(* entry of row i, column j (from 0), uniform by rejection from SHAKE128(seed || j || i) *)
Matrix(t, seed, i, j) ==
    LET s == Ask(t, "shake128", seed \o <<j, i>>)
        v == TLCEval([n \in 1..(Len(s) \div 2) |-> (s[2 * n - 1] + 256 * s[2 * n]) % 8192])
        c == SelectSeq(v, LAMBDA x : x < Q)
    IN TLCEval([n \in Ix |-> c[n + 1]])

Each(w, f(_)) == TLCEval([k \in 1..w |-> f(k - 1)])

KeyPair(t, seed) ==
    LET c == Ask(t, "sha3-512", seed)
        rho == Slice(c, 0, 32) sigma == Slice(c, 32, 32)
        s == Each(t.w, LAMBDA i : Ntt(Noise(t, sigma, i)))
        b == Each(t.w, LAMBDA i :
                Compress(Plus(INtt(Dot(t.w, Each(t.w, LAMBDA j : Matrix(t, rho, i, j)), s)), Noise(t, sigma, t.w + i)), 11))
    IN [pk |-> Flat(b) \o rho, sk |-> Flat(Each(t.w, LAMBDA i : Pack(s[i + 1], 13, 256)))]

Encrypt(t, pk, m, seed) ==
    LET rho == Slice(pk, 352 * t.w, 32)
        r == Each(t.w, LAMBDA i : Ntt(Noise(t, seed, i)))
        u == Each(t.w, LAMBDA i :
                Compress(Plus(INtt(Dot(t.w, Each(t.w, LAMBDA j : Matrix(t, rho, j, i)), r)), Noise(t, seed, t.w + i)), 11))
        b == Each(t.w, LAMBDA i : Ntt(Decompress(Slice(pk, 352 * i, 352), 11)))
        bits == Unpack(m, 1, 256)
        k == TLCEval([i \in Ix |-> bits[i] * ((Q + 1) \div 2)])
        v == Plus(Plus(INtt(Dot(t.w, b, r)), Noise(t, seed, 2 * t.w)), k)
    IN Flat(u) \o Compress(v, 3)

Decrypt(t, sk, ct) ==
    LET s == Each(t.w, LAMBDA i : Unpack(Slice(sk, 416 * i, 416), 13, 256))
        b == Each(t.w, LAMBDA i : Ntt(Decompress(Slice(ct, 352 * i, 352), 11)))
        v == Decompress(Slice(ct, 352 * t.w, 96), 3)
        m == Minus(v, INtt(Dot(t.w, s, b)))
    IN Pack(TLCEval([i \in Ix |-> ((2 * m[i] + (Q \div 2)) \div Q) % 2]), 1, 256)
----------------------------------------------------------------------------
(* the KEM *)
Encapsulate(t, pk, seed) ==
    LET m == Ask(t, "sha3-256", seed)
        c == Ask(t, "sha3-512", m \o Ask(t, "sha3-256", pk))
        ct == Encrypt(t, pk, m, Slice(c, 32, 32))
    IN [ct |-> ct, ss |-> Ask(t, "sha3-256", Slice(c, 0, 32) \o Ask(t, "sha3-256", ct))]
Decapsulate(t, sk, z, pk, ct) ==
    LET m == Decrypt(t, sk, ct)
        c == Ask(t, "sha3-512", m \o Ask(t, "sha3-256", pk))
        k == IF Encrypt(t, pk, m, Slice(c, 32, 32)) = ct THEN Slice(c, 0, 32) ELSE z
    IN Ask(t, "sha3-256", k \o Ask(t, "sha3-256", ct))
----------------------------------------------------------------------------
Init == Tables /\ inst = 0 /\ checked = FALSE
Choose == inst = 0 /\ inst' \in 1..Len(T) /\ UNCHANGED <<ntt, intt, checked>>
Check == inst > 0 /\ ~ checked /\ checked' = TRUE /\ UNCHANGED <<ntt, intt, inst>>
Next == Choose \/ Check
Spec == Init /\ [][Next]_vars

SameBytes(what, a, b) ==
    a = b \/ (PrintT(<<"MISMATCH", inst, what,
        IF Len(a) = Len(b) THEN CHOOSE i \in 1..Len(a) : a[i] # b[i] ELSE <<Len(a), Len(b)>> >>) /\ FALSE)

KeysMatch == (checked /\ T[inst].kind = "keys") =>
    LET t == T[inst] k == KeyPair(t, Slice(t.seed, 0, 32))
    IN /\ SameBytes("public key", k.pk, t.pk)
       /\ SameBytes("secret key", k.sk \o Slice(t.seed, 32, 32), t.sk)
EncapsulationMatches == (checked /\ T[inst].kind = "enc") =>
    LET t == T[inst] e == Encapsulate(t, t.pk, t.seed)
    IN SameBytes("ciphertext", e.ct, t.ct) /\ SameBytes("shared secret", e.ss, t.ss)
DecapsulationMatches == (checked /\ T[inst].kind = "dec") =>
    LET t == T[inst] s == 416 * t.w
    IN SameBytes("decapsulated secret", Decapsulate(t, Slice(t.sk, 0, s), Slice(t.sk, s, 32), t.pk, t.ct), t.ss)
=============================================================================
