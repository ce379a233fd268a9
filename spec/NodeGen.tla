------------------------------- MODULE NodeGen -------------------------------
(* Scripts for runs of real node processes: random behaviours of NodeProc.    *)
(* What the processes do is recorded and checked against NodeProc (NodeTrace).*)
EXTENDS NodeProc

CONSTANTS Mode,      \* "crash", "control" or "stop": what to do often
          MaxOpsOf,  \* file-system operations at which a process may be killed
          Streak     \* per cent of connections like the one before

Rnd(T) == RandomElement(IF Len(log) > MaxOps THEN {} ELSE T)
Pick(T) == {Rnd(T)}
Note(op, d, c, k) == Log([op |-> op, d |-> d, c |-> c, k |-> k])
                     /\ UNCHANGED <<disk, pc, mem, told, told0, flag, queue, done, keys, conns, status>>
Settled(d) == queue[d] = <<>> /\ pc[d] = "ready"
Lates(d) == {c \in 1..conns : \E i \in DOMAIN queue[d] : queue[d][i] = [c |-> c, k |-> "late"]}
Stalls == Cardinality({i \in DOMAIN log : log[i].k = "stall"})
Unfinished(d) == Lates(d) # {}
Internal(d) == Starting(d) \/ (~ Unfinished(d) /\ Serving(d)) \/ (flag[d] /\ pc[d] # "off" /\ (Stop(d) \/ Act(d) \/ Drop(d) \/ GiveUp(d)))
(* a start at an operation of which the process is killed; the driver sees to it that it has ended *)
Doomed(d, at, how) ==
    /\ More /\ pc[d] = "off" /\ Len(log) + 1 < MaxOps
    /\ log' = log \o << [op |-> "start", d |-> d, c |-> at, k |-> how], [op |-> "kill", d |-> d, c |-> 0, k |-> ""] >>
    /\ UNCHANGED <<disk, pc, mem, told, told0, flag, queue, done, keys, conns, status>>
KindOf(q) == CASE q <= 44 -> "good" [] q <= 54 -> "text" [] q <= 66 -> "bad" [] q <= 76 -> "short" [] q <= 84 -> "empty"
               [] q <= 94 -> "late" [] OTHER -> IF Stalls < 2 THEN "stall" ELSE "good"
(* the kind of the connection made last *)
Opens == SelectSeq(log, LAMBDA e : e.op = "open" /\ e.k \in Complete \cup Broken)
Kind(d, q, s) == IF s <= Streak /\ Opens # <<>> THEN Opens[Len(Opens)].k ELSE KindOf(q)
Act1(d) ==
    \E r \in Pick(1..100), q \in Pick(1..100) :
        IF Unfinished(d) /\ q <= 60 THEN \E c \in Pick(Lates(d)) : Finish(d, c)
        ELSE CASE r <= (CASE Mode = "crash" -> 30 [] Mode = "control" -> 84 [] OTHER -> 62) ->
                    (IF conns < MaxConn THEN \E z \in Pick(1..100), s \in Pick(1..100) : Connect(d, Kind(d, z, s)) ELSE Note("settle", d, 0, ""))
               [] r <= (CASE Mode = "crash" -> 40 [] Mode = "control" -> 92 [] OTHER -> 66) -> Note("settle", d, 0, "")
               [] r <= (CASE Mode = "crash" -> 45 [] Mode = "control" -> 94 [] OTHER -> 70) -> Note("tcp", d, 0, "")
               [] r <= (CASE Mode = "crash" -> 55 [] Mode = "control" -> 96 [] OTHER -> 75) -> \E ms \in Pick(0..400), x \in Pick(0..5) : Note("pause", d, IF x = 0 THEN 800 + 12 * ms ELSE ms, "")
               [] r <= (CASE Mode = "crash" -> 61 [] Mode = "control" -> 96 [] OTHER -> 76) -> Rival(d)
               [] r <= (CASE Mode = "crash" -> 80 [] Mode = "control" -> 98 [] OTHER -> 79) -> Kill(d)
               [] OTHER -> Interrupt(d)
Off(d) == \E r \in Pick(1..100), n \in Pick(1..MaxOpsOf), how \in Pick({"before", "torn", "after"}) :
              IF r <= (IF Mode = "crash" THEN 50 ELSE 5) THEN (IF Len(log) + 1 < MaxOps THEN Doomed(d, n, how) ELSE Start(d))
              ELSE IF r >= (IF Mode = "crash" THEN 92 ELSE 97) THEN Busy(d) ELSE Start(d)
GenNext ==
    IF \E d \in Dir : Running(d) /\ ~ (Listening(d) /\ (Settled(d) \/ Unfinished(d)) /\ ~ flag[d])
    THEN \E d \in {CHOOSE d \in Dir : Running(d) /\ ~ (Listening(d) /\ (Settled(d) \/ Unfinished(d)) /\ ~ flag[d])} : Internal(d)
    ELSE More /\ \E d \in Pick(Dir) : IF pc[d] = "off" THEN Off(d) ELSE Act1(d)
GenSpec == Init /\ [][GenNext]_vars
Show == Len(log) < MaxOps \/ PrintT("@@" \o ToJson(log))
=============================================================================
