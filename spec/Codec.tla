-------------------------------- MODULE Codec --------------------------------
(* The byte codecs of rac (C15): values of nested concatenation types, parsed *)
(* from and serialised to byte strings.                                       *)
(*                                                                            *)
(* A byte string is a sequence of pieces of blocks: piece [b, i, n, cl] is    *)
(* the n bytes of block b from its i-th on (cl: adjusted as a parsed scalar   *)
(* of curve 25519 is).  Blocks say which values their bytes denote.  A type   *)
(* is a leaf or a concatenation; a value is a tree of leaf values, each being *)
(* the bytes it serialises to.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxOps, Emit, Menu, MaxBlocks

Leaf(k, n) == [k |-> k, n |-> n, l |-> <<>>, r |-> <<>>]
Arr(n) == Leaf("arr", n)
Nil == Leaf("nil", 0)
Eds == Leaf("eds", 32)      \* scalar of curve 25519: every string is one, after adjusting
Edp == Leaf("edp", 32)      \* point of Edwards 25519
Mop == Leaf("mop", 32)      \* point of Curve25519: every string is one
Ses == Leaf("ses", 32)      \* scalar of secp256k1
Sep == Leaf("sep", 64)      \* point of secp256k1
Ecd == Leaf("ecd", 64)      \* ECDSA signature
Sch == Leaf("sch", 64)      \* Schnorr signature, Edwards 25519
Scs == Leaf("scs", 64)      \* Schnorr signature, secp256k1
Cat(u, v) == [k |-> "cat", n |-> u.n + v.n, l |-> <<u>>, r |-> <<v>>]
L(t) == t.l[1]
R(t) == t.r[1]
RECURSIVE Name(_)
Name(t) == IF t.k = "cat" THEN "(" \o Name(L(t)) \o " " \o Name(R(t)) \o ")"
           ELSE IF t.k = "arr" THEN "a" \o ToString(t.n) ELSE t.k

(* types the harness has as well *)
Big == LET a1 == Arr(1) a5 == Arr(5) a16 == Arr(16) a32 == Arr(32) a33 == Arr(33) a64 == Arr(64) IN
    << Arr(0), a1, a5, a32, a33, a64, Nil, Eds, Edp, Mop, Ses, Sep, Ecd, Sch, Scs,
       Cat(a1, a5), Cat(a5, a1), Cat(Nil, a5), Cat(a5, Nil), Cat(Arr(0), a32), Cat(a32, a32),
       Cat(Edp, Eds), Cat(Eds, Edp), Cat(Edp, Edp), Cat(Eds, Eds), Cat(Ses, Sep), Cat(Sep, Ses), Cat(a33, Edp), Cat(Edp, a33),
       Cat(Sch, a5), Cat(a5, Sch), Cat(Mop, Edp), Cat(Edp, Mop), Cat(Ses, Edp), Cat(Sep, Ecd),
       Cat(Cat(a1, a5), a32), Cat(a1, Cat(a5, a32)), Cat(Cat(Edp, a1), Cat(a1, Edp)),
       Cat(Cat(Edp, Edp), Edp), Cat(Edp, Cat(Edp, Edp)), Cat(Cat(a32, Cat(Edp, a16)), a16),
       Cat(Cat(Nil, Cat(a1, Nil)), a5), Cat(Ecd, Cat(Scs, Sep)), Cat(Cat(Eds, Ses), Cat(Mop, a32)),
       Cat(Cat(a1, Cat(a5, Cat(a33, a1))), Cat(a64, a5)), Cat(Cat(a5, a33), Cat(a1, a64)) >>
Small == << Arr(1), Nil, Eds, Edp, Cat(Nil, Edp), Cat(Edp, Eds), Cat(Eds, Cat(Arr(1), Edp)), Cat(Cat(Eds, Arr(1)), Edp) >>
Types == IF Menu = "big" THEN Big ELSE Small
----------------------------------------------------------------------------
(* blocks *)
Raw(n) == [n |-> n, c |-> "raw", edp |-> FALSE, ses |-> FALSE, can |-> FALSE]
B32(e, s, c) == [n |-> 32, c |-> "b32", edp |-> e, ses |-> s, can |-> c]
Zero == [n |-> 32, c |-> "zero", edp |-> TRUE, ses |-> FALSE, can |-> TRUE]
Pt(ok) == [n |-> 64, c |-> IF ok THEN "pt" ELSE "nopt", edp |-> FALSE, ses |-> FALSE, can |-> FALSE]

VARIABLES blocks,   \* blocks so far
          strs,     \* byte strings
          vals,     \* values: [t, v] with v the tree
          log
vars == <<blocks, strs, vals, log>>

Piece(b, i, n, cl) == [b |-> b, i |-> i, n |-> n, cl |-> cl]
Size(s) == FoldLeft(LAMBDA a, p : a + p.n, 0, s)
(* pieces that continue each other are one *)
Join(s, t) ==
    IF s = <<>> THEN t ELSE IF t = <<>> THEN s
    ELSE LET p == s[Len(s)] q == t[1]
         IN IF p.b = q.b /\ p.cl = q.cl /\ q.i = p.i + p.n
            THEN SubSeq(s, 1, Len(s) - 1) \o << [p EXCEPT !.n = p.n + q.n] >> \o SubSeq(t, 2, Len(t))
            ELSE s \o t
RECURSIVE Take(_, _), Drop(_, _)
Take(s, n) == IF n = 0 THEN <<>>
              ELSE IF s[1].n <= n THEN <<s[1]>> \o Take(Tail(s), n - s[1].n)
              ELSE << [s[1] EXCEPT !.n = n] >>
Drop(s, n) == IF n = 0 THEN s
              ELSE IF s[1].n <= n THEN Drop(Tail(s), n - s[1].n)
              ELSE << [s[1] EXCEPT !.n = @ - n, !.i = @ + n] >> \o Tail(s)
Whole(s) == Len(s) = 1 /\ s[1].i = 1 /\ s[1].n = blocks[s[1].b].n
Pure(s) == Whole(s) /\ ~ s[1].cl
B(s) == blocks[s[1].b]
Is32(s) == Whole(s) /\ B(s).c \in {"b32", "zero"}
(* what the bytes of one block of 32 denote; adjusting is known to leave a scalar as it is and   *)
(* to make it too large to be canonical                                                          *)
----------------------------------------------------------------------------
(* whether the specification knows if bytes denote a value of a leaf type *)
Known(k, s) ==
    CASE k \in {"arr", "nil", "mop"} -> TRUE
      [] k = "eds" -> Is32(s)
      [] k \in {"edp", "ses"} -> Is32(s) /\ Pure(s)
      [] k = "sep" -> Pure(s) /\ B(s).c \in {"pt", "nopt"}
      [] k = "ecd" -> LET a == Take(s, 32) b == Drop(s, 32) IN Is32(a) /\ Is32(b) /\ Pure(a) /\ Pure(b)
      [] k = "sch" -> Is32(Drop(s, 32))
      [] k = "scs" -> LET b == Drop(s, 32) IN Is32(b) /\ Pure(b)
Denotes(k, s) ==
    CASE k \in {"arr", "nil", "mop", "eds"} -> TRUE
      [] k = "edp" -> B(s).edp
      [] k = "ses" -> B(s).ses
      [] k = "sep" -> B(s).c = "pt"
      [] k = "ecd" -> \A x \in {Take(s, 32), Drop(s, 32)} : B(x).ses \/ B(x).c = "zero"
      [] k = "sch" -> LET b == Drop(s, 32) IN ~ b[1].cl /\ B(b).can
      [] k = "scs" -> B(Drop(s, 32)).ses
(* the leaf value *)
Adjust(k, s) == IF k = "eds" THEN << [s[1] EXCEPT !.cl = TRUE] >> ELSE s

RECURSIVE Defined(_, _), Valid(_, _), Parse(_, _), Ser(_)
Defined(t, s) == IF t.k = "cat" THEN Defined(L(t), Take(s, L(t).n)) /\ Defined(R(t), Drop(s, L(t).n)) ELSE Known(t.k, s)
Valid(t, s) == IF t.k = "cat" THEN Valid(L(t), Take(s, L(t).n)) /\ Valid(R(t), Drop(s, L(t).n)) ELSE Denotes(t.k, s)
Parse(t, s) == IF t.k = "cat" THEN [leaf |-> FALSE, s |-> <<>>, c |-> << Parse(L(t), Take(s, L(t).n)), Parse(R(t), Drop(s, L(t).n)) >>]
               ELSE [leaf |-> TRUE, s |-> Adjust(t.k, s), c |-> <<>>]
Ser(v) == IF v.leaf THEN v.s ELSE Join(Ser(v.c[1]), Ser(v.c[2]))
----------------------------------------------------------------------------
E0 == [op |-> "", x |-> 0, y |-> 0, t |-> "", ok |-> TRUE, s |-> <<>>]
Ended == Len(log) >= MaxOps
Go == ~ Ended
Log(e) == log' = Append(log, e)
Init == blocks = <<>> /\ strs = <<>> /\ vals = <<>> /\ log = <<>>

(* a new string made of new blocks *)
Fresh(bs) ==
    LET s == [i \in DOMAIN bs |-> Piece(Len(blocks) + i, 1, bs[i].n, FALSE)]
    IN /\ Go /\ blocks' = blocks \o bs /\ strs' = Append(strs, s)
       /\ Log([E0 EXCEPT !.op = "bytes", !.s = s]) /\ UNCHANGED vals
DoParse(i, x) ==
    LET t == Types[x] ok == Valid(t, strs[i])
    IN /\ Go /\ Size(strs[i]) = t.n /\ Defined(t, strs[i])
       /\ vals' = IF ok THEN Append(vals, [t |-> x, v |-> Parse(t, strs[i])]) ELSE vals
       /\ Log([E0 EXCEPT !.op = "parse", !.x = i, !.t = Name(t), !.ok = ok])
       /\ UNCHANGED <<blocks, strs>>
DoSer(j) ==
    LET s == Ser(vals[j].v)
    IN /\ Go /\ strs' = Append(strs, s)
       /\ Log([E0 EXCEPT !.op = "ser", !.x = j, !.s = s]) /\ UNCHANGED <<blocks, vals>>
(* the parts of a concatenation, and a concatenation of two values *)
DoPart(j, c) ==
    LET s == Ser(vals[j].v.c[c])
    IN /\ Go /\ Types[vals[j].t].k = "cat"
       /\ strs' = Append(strs, s)
       /\ Log([E0 EXCEPT !.op = IF c = 1 THEN "left" ELSE "right", !.x = j, !.s = s]) /\ UNCHANGED <<blocks, vals>>
DoCat(j, k, x) ==
    LET t == Types[x]
    IN /\ Go /\ t.k = "cat" /\ L(t) = Types[vals[j].t] /\ R(t) = Types[vals[k].t]
       /\ vals' = Append(vals, [t |-> x, v |-> [leaf |-> FALSE, s |-> <<>>, c |-> <<vals[j].v, vals[k].v>>]])
       /\ Log([E0 EXCEPT !.op = "cat", !.x = j, !.y = k, !.t = Name(t)])
       /\ UNCHANGED <<blocks, strs>>
(* through serde (as a line, and as the pair), and cloning *)
RECURSIVE Total(_)
Total(t) == IF t.k = "cat" THEN Total(L(t)) /\ Total(R(t)) ELSE t.k \in {"arr", "nil"}
DoSerde(j, how) ==
    /\ Go /\ Total(Types[vals[j].t])
    /\ Log([E0 EXCEPT !.op = "serde", !.x = j, !.y = how]) /\ UNCHANGED <<blocks, strs, vals>>

SmallBlocks == {Raw(1), B32(TRUE, TRUE, TRUE), B32(FALSE, TRUE, FALSE)}
Next ==
    \/ \E n \in 1..3 : Len(blocks) + n <= MaxBlocks /\ \E bs \in [1..n -> SmallBlocks] : Fresh(bs)
    \/ \E i \in DOMAIN strs, x \in DOMAIN Types : DoParse(i, x)
    \/ \E j \in DOMAIN vals : DoSer(j) \/ (\E c \in {1, 2} : DoPart(j, c)) \/ (\E h \in 1..3 : DoSerde(j, h))
    \/ \E j, k \in DOMAIN vals, x \in DOMAIN Types : DoCat(j, k, x)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C15 *)
Lossless == \A j \in DOMAIN vals :
    LET t == Types[vals[j].t] v == vals[j].v s == Ser(v)
    IN Size(s) = t.n /\ (Defined(t, s) => Valid(t, s) /\ Parse(t, s) = v)
(* bytes parsed are the bytes serialised, where no scalar is adjusted *)
RECURSIVE Leaves(_)
Leaves(t) == IF t.k = "cat" THEN Leaves(L(t)) \o Leaves(R(t)) ELSE <<t>>
Faithful == \A i \in DOMAIN strs, x \in DOMAIN Types :
    LET t == Types[x] IN
    Size(strs[i]) = t.n /\ Defined(t, strs[i]) /\ Valid(t, strs[i]) /\ (\A l \in ToSet(Leaves(t)) : l.k # "eds")
    => Ser(Parse(t, strs[i])) = strs[i]
(* nesting does not matter *)
Flat == \A i \in DOMAIN strs, x, y \in DOMAIN Types :
    Leaves(Types[x]) = Leaves(Types[y]) /\ Size(strs[i]) = Types[x].n /\ Defined(Types[x], strs[i])
    => Defined(Types[y], strs[i]) /\ Valid(Types[x], strs[i]) = Valid(Types[y], strs[i])
       /\ Ser(Parse(Types[x], strs[i])) = Ser(Parse(Types[y], strs[i]))
Abstract == <<blocks, strs, vals, Len(log)>>
Show == ~ Emit \/ ~ Ended \/ PrintT("@@" \o ToJson([blocks |-> blocks, log |-> log]))
=============================================================================
