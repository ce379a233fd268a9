------------------------------- MODULE TcpGen -------------------------------
(* Random behaviours of TcpNode for replay; the last action is a join.       *)
EXTENDS TcpNode

Rnd(T) == RandomElement(IF Len(log) > MaxOps THEN {} ELSE T)
Pick(T) == {Rnd(T)}
Left == MaxOps - Len(log)
(* a start that cannot be completed any more is not begun *)
GenNext ==
    IF node \in {"none", "joined"}
    THEN IF Left = 0 THEN FALSE
         ELSE \E r \in Pick(1..3) : IF r = 1 \/ Left <= 2 \/ life = MaxLife
              THEN (\E a \in Pick(Bad) : IF life = MaxLife THEN Log([E0 EXCEPT !.op = "spawn", !.k = a, !.ok = FALSE]) /\ UNCHANGED <<node, flag, loop, count, life>> ELSE Start(a))
              ELSE \E a \in Pick(Good) : Start(a)
    ELSE IF node = "joining" THEN Main \/ Joined
    ELSE IF Left = 1 THEN Join
    ELSE \E r \in Pick(1..100) :
        CASE r <= 40 -> (\E a \in Pick(Far) : Connect(a))
          [] r <= 42 -> Away
          [] r <= 44 -> (\E a \in Pick({"refused", "foreign", "broadcast"}), z \in Pick(1..60) : Flood(a, IF z = 60 THEN 70000 ELSE IF z <= 25 THEN 1100 ELSE 2 * z))
          [] r <= 50 -> Local [] r <= 54 -> Signal [] r = 55 -> (\E z \in Pick(1..3) : IF z = 1 /\ ~ deaf THEN Deaf ELSE IF z = 2 /\ flag THEN Idle ELSE Signal)
          [] r <= 78 /\ pc # "ended" /\ flag /\ queue < MaxQ -> Incoming
          [] r <= 88 /\ pc # "ended" -> Main
          [] r <= 92 /\ flag -> Clear
          [] r <= 96 -> Join
          [] OTHER -> \E a \in Pick(Far) : Connect(a)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
