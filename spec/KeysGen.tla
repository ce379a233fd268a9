------------------------------- MODULE KeysGen -------------------------------
EXTENDS Keys

Pick(T) == {RandomElement(IF pks = <<>> THEN {} ELSE T)}
GenNext ==
    \E r \in Pick(1..100), q \in Pick(1..100), i \in Pick(P), j \in Pick(K) :
        CASE r <= 8 -> Compress(i)
          [] r <= 13 /\ raws # <<>> -> \E a \in Pick(DOMAIN raws), b \in Pick(DOMAIN raws), e \in Pick(Ell \cup {9}), l \in Pick(Lat \cup {9}) :
                 Mix(a, b, IF q <= 40 THEN 9 ELSE e, IF q > 30 /\ q <= 70 THEN 9 ELSE l)
          [] r <= 21 /\ raws # <<>> -> \E a \in Pick(DOMAIN raws) : Decompress(IF q <= 50 THEN Len(raws) ELSE a)
          [] r <= 24 -> ClonePk(i)
          [] r <= 27 -> CloneSk(j)
          [] r <= 33 -> Pack(i)
          [] r <= 38 /\ packs # <<>> -> \E a \in Pick(DOMAIN packs), e \in Pick(Ell), l \in Pick(Lat), h \in Pick(Hash) :
                 MixPack(a, IF q <= 50 THEN 9 ELSE e, IF q <= 20 \/ q > 70 THEN 9 ELSE l, IF q <= 20 THEN h ELSE IF q <= 45 THEN l ELSE IF q <= 60 THEN 9 ELSE h)
          [] r <= 46 /\ packs # <<>> -> \E a \in Pick(DOMAIN packs), h \in Pick({1, 2}) : Unpack(IF q <= 50 THEN Len(packs) ELSE a, h)
          [] r <= 48 /\ packs # <<>> -> \E a \in Pick(DOMAIN packs), h \in Pick(1..6) : Broken(a, h)
          [] r <= 56 -> Id(i)
          [] r <= 62 /\ ids # <<>> -> \E a \in Pick(DOMAIN ids) : Show1(a)
          [] r <= 68 /\ texts # <<>> -> \E a \in Pick(DOMAIN texts), m \in Pick(Marks \ {0}) : IF texts[a].m = 0 THEN Alter(a, m) ELSE Read(a)
          [] r <= 74 /\ texts # <<>> -> \E a \in Pick(DOMAIN texts) : Read(IF q <= 50 THEN Len(texts) ELSE a)
          [] r <= 76 /\ ids # <<>> -> \E a \in Pick(DOMAIN ids), h \in Pick({1, 2}) : IdSerde(a, h)
          [] r <= 86 -> Dh(i, j)
          [] r <= 92 -> \E s \in Pick({1, 2}) : Enc(i, s)
          [] OTHER -> IF cts = <<>> THEN Enc(i, 1)
                      ELSE LET M == {k \in P : pks[k].l = sks[j]}
                           IN \E k \in Pick(M), c \in Pick(DOMAIN cts) : Dec(k, j, c)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
