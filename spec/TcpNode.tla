------------------------------- MODULE TcpNode -------------------------------
(* The TCP node of vru-tcp (C22): starting, commands, incoming connections,   *)
(* the main loop with its waker and poll timeout, joining, starting again.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Good, Bad,   \* addresses a node can and cannot be started on
          Far,         \* addresses connections are requested to
          MaxOps, MaxQ, MaxLife, Emit

VARIABLES node,        \* the caller's handle: "none", "held", "joining", "joined"
          flag,        \* running
          pc,          \* main loop: "none", "check", "poll", "serve", "ended"
          ready,       \* events the poll returned
          woken,       \* the waker was used, not yet seen
          queue,       \* incoming connections not yet accepted
          edge,        \* something was queued since the poll last reported it
          deaf,        \* the caller has given up the event stream
          errors,      \* error events of the caller's commands, since the start
          asked,       \* connections requested, since the start
          inc,         \* incoming connections, since the start
          life, log
vars == <<node, flag, pc, ready, woken, queue, edge, deaf, errors, asked, inc, life, log>>
loop == <<pc, ready, woken, queue, edge>>
count == <<deaf, errors, asked, inc>>

E0 == [op |-> "", k |-> "", ok |-> TRUE, n |-> 1]
Log(e) == log' = Append(log, e)
More == Len(log) < MaxOps

Init == /\ node = "none" /\ flag = TRUE /\ pc = "none" /\ ready = {} /\ woken = FALSE /\ queue = 0 /\ edge = FALSE
        /\ deaf = FALSE /\ errors = 0 /\ asked = 0 /\ inc = 0 /\ life = 0 /\ log = <<>>
----------------------------------------------------------------------------
(* the caller *)
Start(a) ==
    /\ More /\ node \in {"none", "joined"} /\ life < MaxLife
    /\ Log([E0 EXCEPT !.op = "spawn", !.k = a, !.ok = a \in Good])
    /\ IF a \in Good
       THEN node' = "held" /\ flag' = TRUE /\ pc' = "check" /\ ready' = {} /\ woken' = FALSE /\ queue' = 0 /\ edge' = FALSE
            /\ deaf' = FALSE /\ errors' = 0 /\ asked' = 0 /\ inc' = 0 /\ life' = life + 1
       ELSE UNCHANGED <<node, flag, loop, count, life>>
(* a connection request: nothing or an error event *)
Connect(a) ==
    /\ More /\ node = "held" /\ Log([E0 EXCEPT !.op = "connect", !.k = a])
    /\ asked' = asked + 1 /\ \E e \in {0, 1} : errors' = errors + e
    /\ UNCHANGED <<node, flag, loop, deaf, inc, life>>
(* many at once *)
Flood(a, n) ==
    /\ More /\ node = "held" /\ Log([E0 EXCEPT !.op = "connect", !.k = a, !.n = n])
    /\ asked' = asked + n /\ errors' = errors + n
    /\ UNCHANGED <<node, flag, loop, deaf, inc, life>>
(* the caller does not look at the events until the node is joined *)
Away == More /\ node = "held" /\ Log([E0 EXCEPT !.op = "away"]) /\ UNCHANGED <<node, flag, loop, count, life>>
(* nothing happens for a while *)
Idle == More /\ node = "held" /\ Log([E0 EXCEPT !.op = "idle"]) /\ UNCHANGED <<node, flag, loop, count, life>>
Deaf == /\ More /\ node = "held" /\ ~ deaf /\ deaf' = TRUE /\ Log([E0 EXCEPT !.op = "deaf"])
        /\ UNCHANGED <<node, flag, loop, errors, asked, inc, life>>
Local == /\ More /\ node = "held" /\ Log([E0 EXCEPT !.op = "local"]) /\ UNCHANGED <<node, flag, loop, count, life>>
(* the application handles a signal: an interrupted wait is taken up again, if the flag is set *)
Interrupted == pc' = (IF pc = "poll" /\ ~ flag THEN "ended" ELSE pc) /\ UNCHANGED <<node, flag, ready, woken, queue, edge, count, life>>
Signal == More /\ node = "held" /\ Interrupted /\ Log([E0 EXCEPT !.op = "signal"])
Clear == /\ More /\ node = "held" /\ flag /\ flag' = FALSE /\ Log([E0 EXCEPT !.op = "clear"])
         /\ UNCHANGED <<node, loop, count, life>>
Join == /\ More /\ node = "held" /\ node' = "joining" /\ woken' = TRUE /\ Log([E0 EXCEPT !.op = "join"])
        /\ UNCHANGED <<flag, pc, ready, queue, edge, count, life>>
Joined == /\ node = "joining" /\ pc = "ended" /\ node' = "joined" /\ UNCHANGED <<flag, loop, count, life, log>>
(* somebody connects; refused when the listener is gone *)
Incoming ==
    /\ More /\ node # "none" /\ queue < MaxQ
    /\ pc # "ended" /\ queue' = queue + 1 /\ edge' = TRUE /\ inc' = inc + 1
    /\ Log([E0 EXCEPT !.op = "incoming", !.ok = flag /\ node = "held"])
    /\ UNCHANGED <<node, flag, pc, ready, woken, deaf, errors, asked, life>>
----------------------------------------------------------------------------
(* the main loop *)
Check == /\ pc = "check" /\ pc' = (IF flag THEN "poll" ELSE "ended")
         /\ UNCHANGED <<node, flag, ready, woken, queue, edge, count, life, log>>
(* the poll reports what happened since; or, after a second, nothing *)
Poll == /\ pc = "poll" /\ pc' = "serve"
        /\ ready' = (IF woken THEN {"wake"} ELSE {}) \cup (IF edge THEN {"accept"} ELSE {})
        /\ edge' = FALSE /\ UNCHANGED <<node, flag, woken, queue, count, life, log>>
Serve ==
    /\ pc = "serve"
    /\ IF ready = {} THEN pc' = "check" /\ UNCHANGED <<ready, queue>>
       ELSE \E e \in ready :
            IF e = "wake" THEN pc' = "ended" /\ ready' = {} /\ UNCHANGED queue
            ELSE pc' = pc /\ ready' = ready \ {e} /\ queue' = (IF queue = 0 THEN 0 ELSE queue - 1)
    /\ UNCHANGED <<node, flag, woken, edge, count, life, log>>
Main == Check \/ Poll \/ Serve
Caller == (\E a \in Good \cup Bad : Start(a)) \/ (\E a \in Far : Connect(a)) \/ Local \/ Deaf \/ (Interrupted /\ UNCHANGED log) \/ Clear \/ Join
Next == Caller \/ Joined \/ Incoming \/ Main
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Joined)
----------------------------------------------------------------------------
(* an unusable address starts nothing *)
NoNode == pc = "none" => node = "none"
(* at most an error event per command *)
AtMostOne == errors <= asked
(* the node ends only when told to *)
Stays == [][pc # "ended" /\ pc' = "ended" => (~ flag \/ node = "joining")]_vars
(* joining returns, the flag cleared or not; a cleared flag ends the node *)
Returns == (node = "joining") ~> (node = "joined")
Ends == (node = "held" /\ ~ flag) ~> (pc = "ended")

Abstract == <<node, flag, pc, ready, woken, queue, edge, deaf, errors, asked, life, Len(log)>>
Show == ~ Emit \/ Len(log) < MaxOps \/ ~ (node \in {"joined", "none"}) \/ PrintT("@@" \o ToJson(log))
=============================================================================
