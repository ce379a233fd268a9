----------------------------- MODULE NodeTrace -----------------------------
(* Recorded runs of real node processes, checked against NodeProc: a run is   *)
(* explained if some behaviour of NodeProc shows exactly these events.        *)
EXTENDS NodeProc, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, at,
          name      \* seed -> identity announced for it
tvars == <<tr, at, name>>
all == <<vars, tvars>>

Ev == Runs[tr].ev
E == Ev[at]
TInit == Init /\ \E k \in 1..Len(Runs) : tr = k /\ at = 1 /\ name = <<>>
Consume == at' = at + 1 /\ UNCHANGED <<tr, name>>
Skip(P) == P /\ Consume /\ UNCHANGED vars
IsE(e) == at <= Len(Ev) /\ E.e = e

TStart == IsE("start") /\ Start(E.d) /\ Consume
Named(k) == IF k \in DOMAIN name THEN name[k] = E.c /\ name' = name
            ELSE /\ \A j \in DOMAIN name : name[j] # E.c
                 /\ name' = [j \in DOMAIN name \cup {k} |-> IF j = k THEN E.c ELSE name[j]]
Naming == at' = at + 1 /\ UNCHANGED tr
TTell == IsE("announce") /\ Tell(E.d) /\ Named(mem[E.d]) /\ Naming
(* it may have found the port in use before it announced anything *)
TBusy == /\ IsE("busy") /\ (IF E.c = 0 THEN pc[E.d] = "off" /\ UNCHANGED vars /\ Consume ELSE Busy(E.d) /\ Named(told'[E.d]) /\ Naming)
TReady == Skip(IsE("ready") /\ Listening(E.d))
(* maybe: completed so late that it may or may not have been waited for *)
TOpen == /\ IsE("opened")
         /\ Connect(E.d, IF E.k = "maybe" THEN "late" ELSE E.k)
         /\ conns' = E.c /\ Consume
(* refused ones are numbered too *)
TSkipNumber == /\ IsE("opened") /\ conns + 1 < E.c /\ conns' = conns + 1
               /\ UNCHANGED <<disk, pc, mem, told, told0, flag, queue, done, keys, status, log, tvars>>
IsMaybe(c) == \E i \in 1..(at - 1) : Ev[i].e = "opened" /\ Ev[i].c = c /\ Ev[i].k = "maybe"
TFinish == IsE("finished") /\ Finish(E.d, E.c) /\ Consume
TAct == IsE("acted") /\ Act(E.d) /\ Head(queue[E.d]).k = "good" /\ Head(queue[E.d]).c = E.c /\ Consume
TSettled == Skip(IsE("settled") /\ \A i \in DOMAIN queue[E.d] : queue[E.d][i].k # "good")
TInt == IsE("int") /\ Interrupt(E.d) /\ Consume
TExit == IsE("exit") /\ Stop(E.d) /\ Consume
TKilled == IsE("killed") /\ Kill(E.d) /\ Consume
TRival == IsE("rival") /\ Rival(E.d) /\ (E.c = 0 \/ (mem[E.d] \in DOMAIN name /\ name[mem[E.d]] = E.c)) /\ Consume
Shown == TBusy \/ TRival \/ TStart \/ TTell \/ TReady \/ TOpen \/ TSkipNumber \/ TFinish \/ TAct \/ TSettled \/ TInt \/ TExit \/ TKilled
Hidden == /\ at <= Len(Ev) /\ UNCHANGED tvars
          /\ \E d \in Dir : \/ (Starting(d) /\ told' = told /\ pc[d] # "tell")
                            \/ Take(d) \/ TakeLast(d) \/ Drop(d)
                            \/ (Act(d) /\ Head(queue[d]).k = "text")
                            \/ (GiveUp(d) /\ (Head(queue[d]).k = "stall" \/ IsMaybe(Head(queue[d]).c)))
                            \/ (\E i \in DOMAIN queue[d] : queue[d][i].k = "late" /\ IsMaybe(queue[d][i].c) /\ Finish(d, queue[d][i].c))
TNext == Shown \/ Hidden
TSpec == TInit /\ [][TNext]_all
Done == at > Len(Ev)
TShow == /\ ~ Done \/ PrintT("@@" \o ToString(tr))
         /\ ~ Emit \/ PrintT("@@" \o ToString(tr) \o ":" \o ToString(at))
TView == <<tr, at, conf, base, seed, sock, pc, mem, told, flag, queue, conns, name>>
=============================================================================
