------------------------------- MODULE UdpGen -------------------------------
(* Random behaviours of UdpNode for replay: the peers wait until a datagram   *)
(* has had its effect, so that the effect of every action is determined; once *)
(* the flag is cleared nothing is expected any more but the end.              *)
EXTENDS UdpNode

Rnd(T) == RandomElement(IF Len(log) > MaxOps THEN {} ELSE T)
Pick(T) == {Rnd(T)}
Busy == buf # <<>> \/ pc \in {"check", "recv"}
Waiting == {a \in Addr : pending[a] # None}
(* many steps of UdpNode at once, each settled before the next: datagrams that are only reported; *)
Volley(a, k, n) ==
    /\ Go /\ (k # Good \/ pending[a] = None)
    /\ events' = events \o [i \in 1..n |-> [k |-> IF k = Good THEN "incoming" ELSE "size", a |-> a]]
    /\ Log([E0 EXCEPT !.op = "volley", !.a = a, !.k = k, !.n = n, !.ev = Heard(IF k = Good THEN "incoming" ELSE "size")])
    /\ UNCHANGED <<deaf, flag, main, taken, caller, wanted>>
(* requests that are answered at once; *)
Rounds(a, p, n) ==
    /\ Go /\ pending[a] = None
    /\ sent' = [sent EXCEPT ![a] = @ + n] /\ wanted' = [wanted EXCEPT ![a] = @ + n]
    /\ workers' = workers \o [i \in 1..n |-> [q |-> <<>>, alive |-> TRUE]] /\ fresh' = [fresh EXCEPT ![p] = Len(workers) + n]
    /\ Log([E0 EXCEPT !.op = "rounds", !.a = a, !.p = p, !.n = n, !.hs = TRUE])
    /\ UNCHANGED <<deaf, flag, pc, buf, pending, taken, caller, events>>
(* requests for many other addresses, and all of them once more *)
Crowds == SelectSeq(log, LAMBDA e : e.op = "crowd")
Crowd(n, p) ==
    /\ Go /\ LET again == n = 0 /\ Crowds # <<>>
                 size == IF again THEN Crowds[Len(Crowds)].n ELSE IF n = 0 THEN 10 ELSE n
             IN /\ Log([E0 EXCEPT !.op = "crowd", !.p = p, !.n = size, !.k = IF again THEN "again" ELSE "new", !.ev = IF again THEN Heard("failed") ELSE ""])
                /\ events' = IF again THEN events \o [i \in 1..size |-> [k |-> "failed", a |-> 0]] ELSE events
    /\ UNCHANGED <<deaf, flag, main, taken, caller, wanted>>
Free == {a \in Addr : pending[a] = None}
(* long runs are dear *)
Size(q) == IF q <= 50 THEN 4 ELSE IF q <= 80 THEN 12 ELSE IF q <= 94 THEN 70 ELSE 270
Aways == SelectSeq(log, LAMBDA e : e.op = "away")
AwayNow == Aways # <<>> /\ Aways[Len(Aways)].k = "on"
GenOp ==
    \E r \in Pick(1..100), q \in Pick(1..100), p \in Pick(Id) :
        CASE AwayNow /\ r <= 25 /\ q > 50 -> Crowd(IF q <= 88 THEN 0 ELSE IF q = 100 THEN 70000 ELSE 1100, p)
          [] AwayNow /\ r <= 25 -> \E a \in Pick(Addr) : Volley(a, IF pending[a] = None /\ q <= 25 THEN Good ELSE "bad", IF q <= 2 THEN 1100 ELSE 8 * q)
          [] AwayNow /\ r <= 30 -> Away("off")
          [] r <= 2 -> \E z \in Pick(1..100) : (\E a \in Pick(Addr) : Volley(a, IF pending[a] = None /\ z <= 50 THEN Good ELSE "bad", Size(q)))
          [] r = 3 /\ Free # {} -> \E a \in Pick(Free) : Rounds(a, p, Size(q))
          [] r = 4 -> Crowd(IF q % 3 = 0 THEN 0 ELSE IF q = 100 THEN 1100 ELSE Size(q), p)
          [] r = 5 /\ q <= 60 -> Idle
          [] r = 5 /\ ~ AwayNow /\ ~ deaf -> Away("on")
          [] r <= 33 -> \E a \in (IF q <= 30 /\ Waiting # {} THEN Pick(Waiting) ELSE IF q <= 85 THEN Pick(Addr) ELSE Pick(All)) : Connect(a, p)
          [] r <= 62 -> \E a \in (IF q <= 50 /\ Waiting # {} THEN Pick(Waiting) ELSE Pick(Addr)) : Send(a, Good)
          [] r <= 80 -> \E a \in (IF q <= 50 /\ Waiting # {} THEN Pick(Waiting) ELSE Pick(Addr)) : Send(a, "bad")
          [] r <= 93 -> Local(p)
          [] r <= 96 -> Signal
          [] r = 97 /\ q <= 40 -> IF deaf THEN Signal ELSE Deaf
          [] r = 97 -> Signal
          [] OTHER -> Clear
Settle == IF Busy THEN Main ELSE \E w \in DOMAIN workers : workers[w].alive /\ workers[w].q # <<>> /\ Work(w)
Unsettled == Busy \/ \E w \in DOMAIN workers : workers[w].alive /\ workers[w].q # <<>>
GenNext ==
    IF caller # "free" THEN Main \/ Works \/ Joined
    ELSE IF flag THEN (IF Unsettled THEN Settle ELSE IF Len(log) >= MaxOps - 4 THEN Clear ELSE GenOp)
    ELSE IF Len(log) = MaxOps - 1 THEN Join
    ELSE \E r \in Pick(1..4) : IF r = 1 THEN Join ELSE IF buf = <<>> /\ pc \in {"ended", "closing"} THEN Join ELSE IF buf # <<>> \/ pc \in {"check", "recv"} THEN Main ELSE GenOp
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
