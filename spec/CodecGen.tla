------------------------------ MODULE CodecGen ------------------------------
(* Random behaviours of Codec for replay. *)
EXTENDS Codec

Rnd(T) == RandomElement(IF log = <<>> THEN {} ELSE T)
Pick(T) == {Rnd(T)}
GenInit == blocks = <<Raw(1)>> /\ strs = << <<Piece(1, 1, 1, FALSE)>> >> /\ vals = <<>>
           /\ log = << [E0 EXCEPT !.op = "bytes", !.s = <<Piece(1, 1, 1, FALSE)>>] >>
(* a block for a leaf: mostly one that denotes a value *)
Block(k, n, bad) ==
    CASE k = "edp" -> B32(~ bad, TRUE, Rnd(BOOLEAN))
      [] k = "ses" -> IF bad THEN Rnd({Zero, B32(TRUE, FALSE, TRUE), B32(FALSE, FALSE, FALSE)}) ELSE B32(Rnd(BOOLEAN), TRUE, Rnd(BOOLEAN))
      [] k = "sep" -> Pt(~ bad)
      [] k \in {"eds", "mop", "b32"} -> Rnd({Zero, B32(TRUE, TRUE, TRUE), B32(FALSE, FALSE, FALSE), B32(TRUE, FALSE, TRUE), B32(FALSE, TRUE, FALSE)})
      [] n = 32 -> Rnd({Raw(32), Zero, B32(TRUE, TRUE, TRUE), B32(FALSE, FALSE, FALSE)})
      [] OTHER -> Raw(n)
LeafBlocks(t, bad) ==
    CASE t.n = 0 -> <<>>
      [] t.k = "ecd" -> << Block("ses", 32, FALSE), IF bad THEN B32(TRUE, FALSE, TRUE) ELSE Rnd({Zero, B32(TRUE, TRUE, FALSE)}) >>
      [] t.k = "sch" -> << Block("b32", 32, FALSE), B32(Rnd(BOOLEAN), Rnd(BOOLEAN), ~ bad) >>
      [] t.k = "scs" -> << Block("b32", 32, FALSE), Block("ses", 32, bad) >>
      [] OTHER -> << Block(t.k, t.n, bad) >>
(* blocks for a type, the leaf number w (if any) being bad *)
BlocksFor(t, w) ==
    LET ls == Leaves(t) IN FoldLeft(LAMBDA a, i : a \o LeafBlocks(ls[i], i = w), <<>>, [i \in DOMAIN ls |-> i])
Fits(i) == {x \in DOMAIN Types : Types[x].n = Size(strs[i]) /\ Defined(Types[x], strs[i])}
Pairs == {<<j, k, x>> \in (DOMAIN vals) \X (DOMAIN vals) \X (DOMAIN Types) :
             Types[x].k = "cat" /\ L(Types[x]) = Types[vals[j].t] /\ R(Types[x]) = Types[vals[k].t]}
GenNext ==
    \E r \in Pick(1..100), q \in Pick(1..100) :
        CASE r <= 30 -> \E x \in Pick(DOMAIN Types) :
                 LET t == Types[x] IN
                 \E w \in (IF q <= 35 THEN Pick(1..Len(Leaves(t))) ELSE {0}) : Fresh(BlocksFor(t, w))
          [] r <= 70 -> \E i \in (IF r <= 62 THEN {Len(strs)} ELSE Pick(DOMAIN strs)) : LET F == Fits(i) IN IF F = {} THEN (\E x \in Pick(16..Len(Types)) : Fresh(BlocksFor(Types[x], 0))) ELSE \E x \in Pick(F) : DoParse(i, x)
          [] vals = <<>> -> (\E x \in Pick(16..Len(Types)) : Fresh(BlocksFor(Types[x], 0)))
          [] r <= 80 -> \E j \in Pick(DOMAIN vals) : DoSer(j)
          [] r <= 86 -> \E j \in Pick(DOMAIN vals), c \in Pick({1, 2}) : IF Types[vals[j].t].k = "cat" THEN DoPart(j, c) ELSE DoSer(j)
          [] r <= 92 /\ Pairs # {} -> \E p \in Pick(Pairs) : DoCat(p[1], p[2], p[3])
          [] OTHER -> \E j \in Pick(DOMAIN vals), h \in Pick(1..3) : IF Total(Types[vals[j].t]) THEN DoSerde(j, h) ELSE DoSer(j)
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
