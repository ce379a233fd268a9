----------------------------- MODULE ChannelGen -----------------------------
(* Behaviours of Channel for replay, with weights. *)
EXTENDS Channel

Pick(S) == {RandomElement(IF snd = <<>> THEN {} ELSE S)}
(* associated data: 1000000 * variant + length; variant 1 differs from variant 0 in
   its last byte, 2 in its first, 3 in the middle, 4 in the top bit of its last *)
AdLens == {0, 1, 15, 16, 17, 40, 63, 64, 65, 127, 128, 255, 256, 257, 512, 513, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 70000}
GenAds == AdLens \cup {0, 1, 15, 16, 40}
VarOf(ad) == ad \div 1000000
LenOf(ad) == ad % 1000000
(* data that is nearly m.ad *)
Near(ad) ==
    IF LenOf(ad) = 0 THEN {1}
    ELSE ({1000000 * v + LenOf(ad) : v \in 0..4} \cup {LenOf(ad) - 1, LenOf(ad) + 1}) \ {ad}
GenPts == {0, 1, 15, 16, 17, 63, 64, 65, 200, 1023, 4097, 65519}
GenBursts == {2, 5, 30, 260, 1030, 66000}

NextFor(c, s) == {m \in net : Genuine(c, s, m, m.ad, "none")}

(* long runs are dear *)
Times(q) == IF q <= 960 THEN 1 ELSE IF q <= 980 THEN 20 ELSE IF q <= 990 THEN 270 ELSE IF q <= 999 THEN 1100 ELSE 70000
RunLen(q) == IF q <= 400 THEN 2 ELSE IF q <= 700 THEN 5 ELSE IF q <= 900 THEN 30 ELSE IF q <= 980 THEN 270 ELSE IF q <= 999 THEN 1100 ELSE 66000
Small(ad) == IF LenOf(ad) > 40 THEN 16 ELSE ad

GenNext ==
    /\ Len(log) < MaxLog
    /\ \E r \in Pick(1..100), q \in Pick(1..1000), c \in Pick(Chans), s \in Pick(Side), ad0 \in Pick(Ads), v \in Pick(0..9), pt \in Pick(Pts), dmg \in Pick(Damages) :
        LET ad == IF v <= 4 /\ ad0 > 0 THEN ad0 + 1000000 * v ELSE ad0
        IN IF net = {} \/ (r <= 40 /\ snd[c][s].n < MaxSend)
           THEN IF r <= 3 /\ snd[c][s] = rcv[c][Peer(s)] THEN Burst(c, s, Small(ad), IF pt > 17 THEN 33 ELSE pt, RunLen(q)) ELSE Send(c, s, ad, pt)
        ELSE IF r <= 72 /\ NextFor(c, s) # {} THEN \E m \in NextFor(c, s) : Receive(c, s, m, m.ad, "none", 1)
        ELSE IF r <= 82 /\ NextFor(c, s) # {} THEN \E m \in NextFor(c, s) : Receive(c, s, m, m.ad, dmg, IF dmg # "none" /\ m.pt < 300 /\ LenOf(m.ad) < 300 THEN Times(q) ELSE 1)
        ELSE IF r <= 87 /\ NextFor(c, s) # {} THEN \E m \in NextFor(c, s) : \E near \in Pick(Near(m.ad)) : Receive(c, s, m, near, "none", 1)
        ELSE IF r <= 90 /\ NextFor(c, s) # {} THEN \E m \in NextFor(c, s) : Receive(c, s, m, ad, "none", 1)
        ELSE \E m \in Pick(net) : Receive(c, s, m, m.ad, "none", IF m.pt < 300 /\ LenOf(m.ad) < 300 THEN Times(q) ELSE 1)

GenSpec == Init /\ [][GenNext]_vars
=============================================================================
