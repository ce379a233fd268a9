-------------------------------- MODULE Keys --------------------------------
(* Public keys, secret keys and identities of vru-session in all their        *)
(* representations (C19).  Two owners; a public key is a pair of an elliptic  *)
(* and a lattice part, of the same owner or not; the serialised form has the  *)
(* hash of the lattice part besides.  Every use of a key yields a value of a  *)
(* class: equal classes must be equal bytes, different ones different.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Emit, MaxRegs

Owners == {1, 2}
(* elliptic parts: of an owner, 3 another point, 0 no point; lattice parts: of *)
(* an owner, 3 other bytes; hashes: of a lattice part, 4 other bytes           *)
Ell == 0..3
Lat == 1..3
Hash == 1..4
Key(e, l) == [e |-> e, l |-> l]
Packed(e, l, h) == [e |-> e, l |-> l, h |-> h]
(* texts: of the identity of a key, altered in one of several ways: 0 not at   *)
(* all, 1 into the text of another identity, others into no such text          *)
Marks == 0..19
Txt(k, m) == [k |-> k, m |-> m]

VARIABLES pks, sks, raws, packs, ids, texts, cts, outs, log
vars == <<pks, sks, raws, packs, ids, texts, cts, outs, log>>
regs == <<pks, sks, raws, packs, ids, texts, cts>>

E0 == [op |-> "", x |-> 0, y |-> 0, z |-> 0, ok |-> TRUE]
Ended == Len(log) >= MaxOps
Go == ~ Ended
Log(e) == log' = Append(log, e)
Out(kind, v) == outs' = Append(outs, [kind |-> kind, v |-> v])
Room(r) == Len(r) < MaxRegs

Init == /\ pks = <<Key(1, 1), Key(2, 2)>> /\ sks = <<1, 2>> /\ raws = <<>> /\ packs = <<>>
        /\ ids = <<>> /\ texts = <<>> /\ cts = <<>> /\ outs = <<>> /\ log = <<>>

(* compressed *)
Compress(i) == /\ Go /\ Room(raws) /\ raws' = Append(raws, pks[i]) /\ Log([E0 EXCEPT !.op = "compress", !.x = i])
               /\ UNCHANGED <<pks, sks, packs, ids, texts, cts, outs>>
(* parts of compressed forms put together, one part possibly replaced *)
Mix(i, j, e, l) ==
    /\ Go /\ Room(raws)
    /\ raws' = Append(raws, Key(IF e = 9 THEN raws[i].e ELSE e, IF l = 9 THEN raws[j].l ELSE l))
    /\ Log([E0 EXCEPT !.op = "mix", !.x = i, !.y = j, !.z = 10 * e + l])
    /\ UNCHANGED <<pks, sks, packs, ids, texts, cts, outs>>
Decompress(i) ==
    /\ Go /\ Room(pks)
    /\ pks' = IF raws[i].e = 0 THEN pks ELSE Append(pks, raws[i])
    /\ Log([E0 EXCEPT !.op = "decompress", !.x = i, !.ok = raws[i].e # 0])
    /\ UNCHANGED <<sks, raws, packs, ids, texts, cts, outs>>
ClonePk(i) == /\ Go /\ Room(pks) /\ pks' = Append(pks, pks[i]) /\ Log([E0 EXCEPT !.op = "clone", !.x = i])
              /\ UNCHANGED <<sks, raws, packs, ids, texts, cts, outs>>
CloneSk(i) == /\ Go /\ Room(sks) /\ sks' = Append(sks, sks[i]) /\ Log([E0 EXCEPT !.op = "clonesk", !.x = i])
              /\ UNCHANGED <<pks, raws, packs, ids, texts, cts, outs>>
(* serialised *)
Pack(i) == /\ Go /\ Room(packs) /\ packs' = Append(packs, Packed(pks[i].e, pks[i].l, pks[i].l))
           /\ Log([E0 EXCEPT !.op = "pack", !.x = i])
           /\ UNCHANGED <<pks, sks, raws, ids, texts, cts, outs>>
MixPack(i, e, l, h) ==
    /\ Go /\ Room(packs)
    /\ packs' = Append(packs, Packed(IF e = 9 THEN packs[i].e ELSE e, IF l = 9 THEN packs[i].l ELSE l, IF h = 9 THEN packs[i].h ELSE h))
    /\ Log([E0 EXCEPT !.op = "mixpack", !.x = i, !.z = 100 * e + 10 * l + h])
    /\ UNCHANGED <<pks, sks, raws, ids, texts, cts, outs>>
Consistent(p) == p.e # 0 /\ p.h = p.l
Unpack(i, how) ==
    LET ok == Consistent(packs[i])
    IN /\ Go /\ Room(pks)
       /\ pks' = IF ok THEN Append(pks, Key(packs[i].e, packs[i].l)) ELSE pks
       /\ Log([E0 EXCEPT !.op = "unpack", !.x = i, !.y = how, !.ok = ok])
       /\ UNCHANGED <<sks, raws, packs, ids, texts, cts, outs>>
(* not even of the right form: cut, of another type *)
Broken(i, how) == /\ Go /\ Log([E0 EXCEPT !.op = "broken", !.x = i, !.y = how, !.ok = FALSE]) /\ UNCHANGED <<regs, outs>>
(* identities *)
Id(i) == /\ Go /\ Room(ids) /\ ids' = Append(ids, [k |-> pks[i], m |-> 0]) /\ Out("id", <<pks[i].e, pks[i].l, 0>>)
         /\ Log([E0 EXCEPT !.op = "id", !.x = i]) /\ UNCHANGED <<pks, sks, raws, packs, texts, cts>>
Show1(i) == /\ Go /\ Room(texts) /\ texts' = Append(texts, Txt(ids[i].k, ids[i].m)) /\ Log([E0 EXCEPT !.op = "show", !.x = i])
            /\ UNCHANGED <<pks, sks, raws, packs, ids, cts, outs>>
Alter(i, m) == /\ Go /\ Room(texts) /\ texts[i].m = 0 /\ texts' = Append(texts, [texts[i] EXCEPT !.m = m])
               /\ Log([E0 EXCEPT !.op = "alter", !.x = i, !.y = m]) /\ UNCHANGED <<pks, sks, raws, packs, ids, cts, outs>>
Read(i) == LET ok == texts[i].m \in {0, 1} IN
           /\ Go /\ Room(ids)
           /\ ids' = IF ok THEN Append(ids, [k |-> texts[i].k, m |-> texts[i].m]) ELSE ids
           /\ (IF ok THEN Out("id", <<texts[i].k.e, texts[i].k.l, texts[i].m>>) ELSE UNCHANGED outs)
           /\ Log([E0 EXCEPT !.op = "read", !.x = i, !.ok = ok]) /\ UNCHANGED <<pks, sks, raws, packs, texts, cts>>
IdSerde(i, how) == /\ Go /\ Room(ids) /\ ids' = Append(ids, ids[i]) /\ Out("id", <<ids[i].k.e, ids[i].k.l, ids[i].m>>)
                   /\ Log([E0 EXCEPT !.op = "idserde", !.x = i, !.y = how]) /\ UNCHANGED <<pks, sks, raws, packs, texts, cts>>
(* uses *)
Dh(i, j) == LET e == pks[i].e s == sks[j]
            IN /\ Go /\ Out("dh", IF e < s THEN <<e, s, 0>> ELSE <<s, e, 0>>)
               /\ Log([E0 EXCEPT !.op = "dh", !.x = i, !.y = j]) /\ UNCHANGED regs
Enc(i, r) == /\ Go /\ Room(cts) /\ cts' = Append(cts, [l |-> pks[i].l, r |-> r]) /\ Out("ss", <<pks[i].l, r, 0>>)
             /\ Log([E0 EXCEPT !.op = "enc", !.x = i, !.y = r]) /\ UNCHANGED <<pks, sks, raws, packs, ids, texts>>
(* a ciphertext for another key is rejected implicitly *)
Dec(i, j, c) == /\ Go /\ pks[i].l = sks[j]
                /\ Out("ss", IF cts[c].l = sks[j] THEN <<cts[c].l, cts[c].r, 0>> ELSE <<cts[c].l, cts[c].r, sks[j]>>)
                /\ Log([E0 EXCEPT !.op = "dec", !.x = i, !.y = j, !.z = c]) /\ UNCHANGED regs

P == DOMAIN pks
K == DOMAIN sks
Next ==
    \/ \E i \in P : Compress(i) \/ ClonePk(i) \/ Pack(i) \/ Id(i)
    \/ \E i, j \in DOMAIN raws, e \in {0, 9}, l \in {3, 9} : Mix(i, j, e, l)
    \/ \E i \in DOMAIN raws : Decompress(i)
    \/ \E i \in K : CloneSk(i)
    \/ \E i \in DOMAIN packs, e \in {0, 2, 9}, l \in {2, 3, 9}, h \in {2, 4, 9} : MixPack(i, e, l, h)
    \/ \E i \in DOMAIN packs : Unpack(i, 1) \/ Broken(i, 1)
    \/ \E i \in DOMAIN ids : Show1(i) \/ IdSerde(i, 1)
    \/ \E i \in DOMAIN texts : (\E m \in {1, 2} : Alter(i, m)) \/ Read(i)
    \/ \E i \in P, j \in K : Dh(i, j)
    \/ \E i \in P, r \in {1} : Enc(i, r)
    \/ \E i \in P, j \in K, c \in DOMAIN cts : Dec(i, j, c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* C19 *)
(* only points are keys *)
Sound == \A i \in P : pks[i].e # 0
(* the same identity exactly for the same key *)
OneIdentity == \A a, b \in DOMAIN ids : (ids[a] = ids[b]) <=> (ids[a].k = ids[b].k /\ ids[a].m = ids[b].m)
(* representations of an owner's key agree with the owner's secret *)
Usable == \A o \in DOMAIN outs : outs[o].kind = "ss" => outs[o].v[3] # outs[o].v[1]
Abstract == <<regs, outs, Len(log)>>
Show == ~ Emit \/ ~ Ended \/ PrintT("@@" \o ToJson([log |-> log, outs |-> outs]))
=============================================================================
