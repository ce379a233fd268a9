------------------------------- MODULE Base64 -------------------------------
(* The text form of an identity: base64 (standard alphabet, padded) of a zero *)
(* byte and the hash.  Characters and bytes are numbers.                      *)
EXTENDS Naturals, Sequences, SequencesExt

Alphabet == [i \in 1..64 |->
    IF i <= 26 THEN 64 + i ELSE IF i <= 52 THEN 70 + i ELSE IF i <= 62 THEN i - 5 ELSE IF i = 63 THEN 43 ELSE 47]
Sextet == [c \in 0..255 |-> IF \E i \in 1..64 : Alphabet[i] = c THEN (CHOOSE i \in 1..64 : Alphabet[i] = c) - 1 ELSE 64]
Equals == 61

(* three bytes to four characters; the last group may be short *)
Group(b) ==
    LET n == Len(b)
        x == 65536 * b[1] + (IF n > 1 THEN 256 * b[2] ELSE 0) + (IF n > 2 THEN b[3] ELSE 0)
        c(i) == Alphabet[1 + ((x \div (CASE i = 1 -> 262144 [] i = 2 -> 4096 [] i = 3 -> 64 [] OTHER -> 1)) % 64)]
    IN << c(1), c(2), IF n > 1 THEN c(3) ELSE Equals, IF n > 2 THEN c(4) ELSE Equals >>
RECURSIVE Encode(_)
Encode(b) == IF b = <<>> THEN <<>>
             ELSE LET k == IF Len(b) < 3 THEN Len(b) ELSE 3
                  IN Group(SubSeq(b, 1, k)) \o Encode(SubSeq(b, k + 1, Len(b)))

(* the bytes a text is the encoding of, or Bad; a byte string has one text only *)
Bad == <<-1>>
Ungroup(t) ==
    LET s == [i \in 1..4 |-> Sextet[t[i]]]
        pad == IF t[4] # Equals THEN 0 ELSE IF t[3] # Equals THEN 1 ELSE 2
        v(i) == IF s[i] = 64 THEN 0 ELSE s[i]
        x == 262144 * v(1) + 4096 * v(2) + 64 * v(3) + v(4)
        b == << x \div 65536, (x \div 256) % 256, x % 256 >>
    IN IF \E i \in 1..(4 - pad) : s[i] = 64 THEN Bad
       ELSE SubSeq(b, 1, 3 - pad)
Decode(t) ==
    IF Len(t) % 4 # 0 \/ (\E i \in DOMAIN t : t[i] \notin 0..255) THEN Bad
    ELSE LET n == Len(t) \div 4
             g == [i \in 1..n |-> Ungroup(SubSeq(t, 4 * i - 3, 4 * i))]
             all == FoldLeft(LAMBDA a, x : a \o x, <<>>, g)
         IN IF \E i \in 1..n : g[i] = Bad THEN Bad
            ELSE IF Encode(all) # t THEN Bad ELSE all

(* the identity a text denotes, or Bad *)
Identity(t) == LET b == Decode(t) IN IF b = Bad \/ Len(b) # 33 \/ b[1] # 0 THEN Bad ELSE Tail(b)
Text(h) == Encode(<<0>> \o h)
=============================================================================
