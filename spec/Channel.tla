------------------------------ MODULE Channel ------------------------------
(* The transport channel after the handshake (C07, C08, C09): for every       *)
(* channel and direction a sending and a receiving end, each with a message   *)
(* counter and a key epoch, and a network that may drop, reorder, replay,     *)
(* damage, reflect and cross-deliver.  A ciphertext is the tuple of what the  *)
(* authenticated encryption binds: key = (channel, direction, epoch), nonce = *)
(* counter, associated data, plaintext.  A burst is a run of messages that    *)
(* arrive as they were sent, taken in one step (m.k of them).  A message that *)
(* does not belong may arrive many times over.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Chans,      \* channels of unrelated sessions
          Intervals,  \* key rotation intervals to consider
          Ads, Pts,   \* associated data (1000000 * variant + length), plaintexts (their lengths)
          Bursts,     \* lengths of runs
          Floods,     \* how often a bad message may be repeated
          MaxSend,    \* messages per channel and direction
          MaxLog, Emit

Side == {"A", "B"}
Peer(s) == IF s = "A" THEN "B" ELSE "A"
(* what happens to a message on its way *)
Damages == {"none", "flip", "flipTag", "cut", "cutTag", "short", "empty", "extend", "prepend", "swapTag"}

VARIABLES interval, snd, rcv, net, got, log
vars == <<interval, snd, rcv, net, got, log>>

End == [n |-> 0, e |-> 0]
(* k more messages processed: rotate after every interval messages *)
Bump(x, k) == [n |-> x.n + k, e |-> x.e + ((x.n + k) \div interval) - (x.n \div interval)]

Init ==
    /\ interval \in Intervals
    /\ snd = [c \in Chans |-> [s \in Side |-> End]]
    /\ rcv = [c \in Chans |-> [s \in Side |-> End]]
    /\ net = {}
    /\ got = [c \in Chans |-> [s \in Side |-> <<>>]]
    /\ log = <<>>

Log(x) == log' = IF Emit THEN Append(log, x) ELSE log

Send(c, s, ad, pt) ==
    /\ snd[c][s].n < MaxSend
    /\ LET m == [c |-> c, from |-> s, n |-> snd[c][s].n, e |-> snd[c][s].e, ad |-> ad, pt |-> pt, k |-> 1]
       IN /\ net' = net \cup {m}
          /\ Log([op |-> "send", c |-> c, s |-> s, m |-> m, dmg |-> "none", ad |-> ad, ok |-> TRUE, times |-> 1])
    /\ snd' = [snd EXCEPT ![c][s] = Bump(@, 1)]
    /\ UNCHANGED <<interval, rcv, got>>

(* every message of the run is accepted at once; nothing may be under way *)
Burst(c, s, ad, pt, k) ==
    /\ snd[c][s] = rcv[c][Peer(s)]
    /\ LET m == [c |-> c, from |-> s, n |-> snd[c][s].n, e |-> snd[c][s].e, ad |-> ad, pt |-> pt, k |-> k]
       IN /\ net' = net \cup {m}
          /\ got' = [got EXCEPT ![c][Peer(s)] = Append(@, m)]
          /\ Log([op |-> "burst", c |-> c, s |-> s, m |-> m, dmg |-> "none", ad |-> ad, ok |-> TRUE, times |-> k])
    /\ snd' = [snd EXCEPT ![c][s] = Bump(@, k)]
    /\ rcv' = [rcv EXCEPT ![c][Peer(s)] = Bump(@, k)]
    /\ UNCHANGED interval

Genuine(c, s, m, ad, dmg) ==
    /\ dmg = "none" /\ ad = m.ad
    /\ m.c = c /\ m.from = Peer(s)
    /\ m.n = rcv[c][s].n /\ m.e = rcv[c][s].e

(* the first of them is accepted if it is the one expected; the others are replays *)
Receive(c, s, m, ad, dmg, times) ==
    /\ LET ok == Genuine(c, s, m, ad, dmg)
       IN /\ rcv' = IF ok THEN [rcv EXCEPT ![c][s] = Bump(@, 1)] ELSE rcv
          /\ got' = IF ok THEN [got EXCEPT ![c][s] = Append(@, m)] ELSE got
          /\ Log([op |-> "recv", c |-> c, s |-> s, m |-> m, dmg |-> dmg, ad |-> ad, ok |-> ok, times |-> times])
    /\ UNCHANGED <<interval, snd, net>>

Next ==
    \/ \E c \in Chans, s \in Side, ad \in Ads, pt \in Pts : Send(c, s, ad, pt)
    \/ \E c \in Chans, s \in Side, ad \in Ads, pt \in Pts, k \in Bursts : snd[c][s].n < MaxSend /\ Burst(c, s, ad, pt, k)
    \/ \E c \in Chans, s \in Side, m \in net, ad \in Ads, dmg \in Damages, t \in Floods : Receive(c, s, m, ad, dmg, t)

Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
SentBy(c, s) == {m \in net : m.c = c /\ m.from = s}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN m.k + Total(S \ {m})
(* C07: what was accepted is a prefix of what was sent *)
Prefix ==
    \A c \in Chans, s \in Side : \A i \in 1..Len(got[c][s]) :
        LET m == got[c][s][i]
        IN m \in SentBy(c, Peer(s)) /\ m.n = Total({got[c][s][j] : j \in 1..i-1})

(* C08: whatever happened, the next genuine message can be accepted *)
Undisturbed ==
    \A c \in Chans, s \in Side :
        /\ Total({got[c][s][i] : i \in 1..Len(got[c][s])}) = rcv[c][s].n
        /\ \A m \in SentBy(c, Peer(s)) : m.n = rcv[c][s].n => Genuine(c, s, m, m.ad, "none")
        /\ snd[c][s].n = Total(SentBy(c, s))

(* C09 *)
NonceUnique == \A x, y \in net : x # y => ~ (x.c = y.c /\ x.from = y.from /\ x.e = y.e /\ x.n = y.n)
InStep ==
    \A c \in Chans, s \in Side :
        /\ snd[c][s].e = snd[c][s].n \div interval
        /\ rcv[c][s].e = rcv[c][s].n \div interval

Show == (Emit /\ Len(log) >= MaxLog) => PrintT("@@" \o ToJson([interval |-> interval, log |-> log]))
=============================================================================
