------------------------------- MODULE XXGen -------------------------------
(* Behaviours of XX for replay: several alterations at once, whole messages   *)
(* taken from the other pair, drawn at random.                                *)
EXTENDS XX

Pick(S) == {RandomElement(IF d = <<0>> THEN {} ELSE S)}
SetAlt(m, f, t) == [m |-> m, f |-> f, c |-> "seen", x |-> t]

RECURSIVE Draw(_, _, _)
(* a random choice for every field of A *)
Draw(m, f, A) ==
    IF A = {} THEN {<<>>}
    ELSE LET g == CHOOSE g \in A : TRUE
         IN {[x \in {g} \cup DOMAIN r |-> IF x = g THEN c ELSE r[x]] :
                c \in Pick(AltsOf(FieldType(m, g), f[g])), r \in Draw(m, f, A \ {g})}

GenDeliver(op, k) ==
    LET own == Peer(op, k)
        oth == OtherPeer(op, k)
        src == IF own # <<>> THEN own ELSE oth
    IN IF ~ Ready(op, k) \/ src = <<>> THEN Skip
       ELSE \E r \in Pick(1..100) :
            IF r <= 72 \/ budget = 0 THEN
                IF own = <<>> /\ (budget = 0 \/ r <= 40) THEN Skip ELSE Perform(op, k, [d |-> d, f |-> src[2]], <<>>, IF own = <<>> THEN 1 ELSE 0)
            ELSE IF r <= 80 /\ oth # <<>>
            THEN \* the whole message of the other pair
                 Perform(op, k, [d |-> d, f |-> oth[2]],
                         SetToSeq({SetAlt(src[1], g, oth[2][g]) : g \in {g \in Fields(src[1]) : oth[2][g] # src[2][g]}}), 1)
            ELSE IF r <= 86 /\ oth # <<>>
            THEN \* some fields of the other pair's message
                 \E A \in Pick(SUBSET Fields(src[1])) :
                    LET f == [g \in Fields(src[1]) |-> IF g \in A THEN oth[2][g] ELSE src[2][g]]
                    IN Perform(op, k, [d |-> d, f |-> f],
                               SetToSeq({SetAlt(src[1], g, f[g]) : g \in {g \in Fields(src[1]) : f[g] # src[2][g]}}), 1)
            ELSE \E A \in Pick({A \in SUBSET Fields(src[1]) : Cardinality(A) \in 1..2 /\
                                    \A g \in A : AltsOf(FieldType(src[1], g), src[2][g]) # {}}) :
                 \E a \in Draw(src[1], src[2], A) :
                    LET alt == SetToSeq({[m |-> src[1], f |-> g, c |-> a[g][1], x |-> a[g][2]] : g \in A})
                    IN Perform(op, k, AlterAll(d, src[1], src[2], a, A), alt, 1)

GenNext ==
    /\ step <= Len(Script)
    /\ LET s == Script[step] IN IF s[1] = "out0" THEN DoOut0(s[2]) ELSE GenDeliver(s[1], s[2])
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
