------------------------------ MODULE NodeProc ------------------------------
(* The node process of vru-node (C23, C24, C25): its data directories, the    *)
(* stored seed, starting, crashing, the control socket, stopping.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Dir, MaxOps, MaxConn, Emit

(* a control connection, as its writer makes it *)
Complete == {"good", "text"}                \* a whole command; text: one without an effect outside
Broken   == {"bad", "short", "empty"}       \* never will be one, and the reader can tell
Hanging  == {"stall", "late"}               \* neither complete nor ended; late: completed later
Kinds    == Complete \cup Broken \cup Hanging

VARIABLES conf, base, seed, sock,   \* on disk: sled's configuration, its log, the stored seed, the socket
          pc, mem,                  \* the process of a directory; the seed it works with
          told, told0,              \* identities announced: the latest, the first
          flag,                     \* interrupted
          queue,                    \* connections not yet read
          done,                     \* commands that took effect, by connection number
          keys, conns,              \* how many seeds were drawn, connections made
          status,                   \* of the last process: "", "ok", "killed"
          log
disk == <<conf, base, seed, sock>>
vars == <<conf, base, seed, sock, pc, mem, told, told0, flag, queue, done, keys, conns, status, log>>

E0 == [op |-> "", d |-> 0, c |-> 0, k |-> ""]
Log(e) == log' = Append(log, e)
More == Len(log) < MaxOps
Running(d) == pc[d] # "off"
Listening(d) == pc[d] \in {"ready", "reading"}

Init ==
    /\ conf = [d \in Dir |-> "none"] /\ base = [d \in Dir |-> FALSE] /\ seed = [d \in Dir |-> 0] /\ sock = [d \in Dir |-> FALSE]
    /\ pc = [d \in Dir |-> "off"] /\ mem = [d \in Dir |-> 0] /\ told = [d \in Dir |-> 0] /\ told0 = [d \in Dir |-> 0]
    /\ flag = [d \in Dir |-> FALSE] /\ queue = [d \in Dir |-> <<>>] /\ done = [d \in Dir |-> <<>>]
    /\ keys = 0 /\ conns = 0 /\ status = [d \in Dir |-> ""] /\ log = <<>>
----------------------------------------------------------------------------
(* starting, step by step; a crash can come between any two *)
Start(d) ==
    /\ More /\ pc[d] = "off" /\ pc' = [pc EXCEPT ![d] = "open"] /\ flag' = [flag EXCEPT ![d] = FALSE]
    /\ Log([E0 EXCEPT !.op = "start", !.d = d])
    /\ UNCHANGED <<disk, mem, told, told0, queue, done, keys, conns, status>>
Step(d, p, q) == pc[d] = p /\ pc' = [pc EXCEPT ![d] = q] /\ UNCHANGED <<flag, queue, done, conns, status, log>>
(* there is no data before the log exists: whatever is left of the configuration is removed *)
Open(d) == /\ Step(d, "open", IF base[d] THEN "key" ELSE "conf")
           /\ conf' = (IF base[d] THEN conf ELSE [conf EXCEPT ![d] = "none"])
           /\ UNCHANGED <<base, seed, sock, mem, told, told0, keys>>
Conf1(d) == Step(d, "conf", "conf2") /\ conf' = [conf EXCEPT ![d] = "partial"] /\ UNCHANGED <<base, seed, sock, mem, told, told0, keys>>
Conf2(d) == Step(d, "conf2", "base") /\ conf' = [conf EXCEPT ![d] = "full"] /\ UNCHANGED <<base, seed, sock, mem, told, told0, keys>>
Base(d) == Step(d, "base", "key") /\ base' = [base EXCEPT ![d] = TRUE] /\ UNCHANGED <<conf, seed, sock, mem, told, told0, keys>>
(* the stored seed, or a new one, which is made durable before it is used *)
Key(d) == /\ conf[d] = "full" /\ Step(d, "key", IF seed[d] # 0 THEN "tell" ELSE "flush")
          /\ mem' = [mem EXCEPT ![d] = IF seed[d] # 0 THEN seed[d] ELSE keys + 1]
          /\ keys' = (IF seed[d] # 0 THEN keys ELSE keys + 1) /\ UNCHANGED <<disk, told, told0>>
Flush(d) == Step(d, "flush", "tell") /\ seed' = [seed EXCEPT ![d] = mem[d]] /\ UNCHANGED <<conf, base, sock, mem, told, told0, keys>>
Tell(d) == /\ Step(d, "tell", "unlink") /\ told' = [told EXCEPT ![d] = mem[d]]
           /\ told0' = (IF told0[d] = 0 THEN [told0 EXCEPT ![d] = mem[d]] ELSE told0) /\ UNCHANGED <<disk, mem, keys>>
(* a socket left behind is in nobody's way *)
Unlink(d) == Step(d, "unlink", "bind") /\ sock' = [sock EXCEPT ![d] = FALSE] /\ UNCHANGED <<conf, base, seed, mem, told, told0, keys>>
Bind(d) == /\ ~ sock[d] /\ Step(d, "bind", "ready") /\ sock' = [sock EXCEPT ![d] = TRUE] /\ UNCHANGED <<conf, base, seed, mem, told, told0, keys>>
Starting(d) == Open(d) \/ Conf1(d) \/ Conf2(d) \/ Base(d) \/ Key(d) \/ Flush(d) \/ Tell(d) \/ Unlink(d) \/ Bind(d)

End(d, s) == /\ pc' = [pc EXCEPT ![d] = "off"] /\ mem' = [mem EXCEPT ![d] = 0] /\ queue' = [queue EXCEPT ![d] = <<>>]
             /\ status' = [status EXCEPT ![d] = s]
Kill(d) == /\ More /\ Running(d) /\ End(d, "killed") /\ Log([E0 EXCEPT !.op = "kill", !.d = d])
           /\ UNCHANGED <<disk, told, told0, flag, done, keys, conns>>
(* another start on a directory in use: it ends by itself, having announced nothing or the same *)
Rival(d) == /\ More /\ Listening(d) /\ Log([E0 EXCEPT !.op = "rival", !.d = d])
            /\ UNCHANGED <<disk, pc, mem, told, told0, flag, queue, done, keys, conns, status>>
(* a start that cannot have its port ends by itself, having announced the identity of the directory *)
Busy(d) ==
    /\ More /\ pc[d] = "off" /\ Log([E0 EXCEPT !.op = "busy", !.d = d])
    /\ LET s == IF seed[d] # 0 THEN seed[d] ELSE keys + 1
       IN /\ conf' = [conf EXCEPT ![d] = "full"] /\ base' = [base EXCEPT ![d] = TRUE] /\ seed' = [seed EXCEPT ![d] = s]
          /\ told' = [told EXCEPT ![d] = s] /\ told0' = (IF told0[d] = 0 THEN [told0 EXCEPT ![d] = s] ELSE told0)
          /\ keys' = (IF seed[d] # 0 THEN keys ELSE keys + 1)
    /\ status' = [status EXCEPT ![d] = "ok"] /\ UNCHANGED <<sock, pc, mem, flag, queue, done, conns>>
(* interrupting a process that handles it *)
Interrupt(d) ==
    /\ More /\ Listening(d) /\ flag' = [flag EXCEPT ![d] = TRUE] /\ Log([E0 EXCEPT !.op = "int", !.d = d])
    /\ UNCHANGED <<disk, pc, mem, told, told0, queue, done, keys, conns, status>>
----------------------------------------------------------------------------
(* control connections *)
Connect(d, k) ==
    /\ More /\ conns < MaxConn /\ Listening(d) /\ conns' = conns + 1
    /\ queue' = [queue EXCEPT ![d] = Append(@, [c |-> conns + 1, k |-> k])]
    /\ Log([E0 EXCEPT !.op = "open", !.d = d, !.c = conns + 1, !.k = k])
    /\ UNCHANGED <<disk, pc, mem, told, told0, flag, done, keys, status>>
(* the rest of a late command *)
Finish(d, c) ==
    /\ More /\ \E i \in DOMAIN queue[d] : queue[d][i] = [c |-> c, k |-> "late"] /\ queue' = [queue EXCEPT ![d][i].k = "good"]
    /\ Log([E0 EXCEPT !.op = "finish", !.d = d, !.c = c])
    /\ UNCHANGED <<disk, pc, mem, told, told0, flag, done, keys, conns, status>>
Loop(d, p, q) == pc[d] = p /\ pc' = [pc EXCEPT ![d] = q] /\ UNCHANGED <<disk, mem, told, told0, flag, keys, conns, status, log>>
Take(d) == /\ ~ flag[d] /\ queue[d] # <<>> /\ Loop(d, "ready", "reading") /\ UNCHANGED <<queue, done>>
(* accepted by the kernel, told to stop before accepting it itself: may or may not be read *)
TakeLast(d) == flag[d] /\ queue[d] # <<>> /\ Loop(d, "ready", "reading") /\ UNCHANGED <<queue, done>>
Pop(d) == queue' = [queue EXCEPT ![d] = Tail(@)]
Act(d) == /\ queue[d] # <<>> /\ Head(queue[d]).k \in Complete /\ Loop(d, "reading", "ready") /\ Pop(d)
          /\ done' = (IF Head(queue[d]).k = "good" THEN [done EXCEPT ![d] = Append(@, Head(queue[d]).c)] ELSE done)
Drop(d) == /\ queue[d] # <<>> /\ Head(queue[d]).k \in Broken /\ Loop(d, "reading", "ready") /\ Pop(d) /\ UNCHANGED done
GiveUp(d) == /\ queue[d] # <<>> /\ Head(queue[d]).k \in Hanging /\ Loop(d, "reading", "ready") /\ Pop(d) /\ UNCHANGED done
Stop(d) == /\ pc[d] = "ready" /\ flag[d] /\ End(d, "ok") /\ UNCHANGED <<disk, told, told0, flag, done, keys, conns, log>>
Serving(d) == Take(d) \/ Act(d) \/ Drop(d) \/ GiveUp(d)

Next == \E d \in Dir : \/ Start(d) \/ Busy(d) \/ Starting(d) \/ Kill(d) \/ Interrupt(d) \/ Rival(d)
                       \/ (\E k \in Kinds : Connect(d, k)) \/ (\E c \in 1..MaxConn : Finish(d, c))
                       \/ Serving(d) \/ TakeLast(d) \/ Stop(d)
Fair == \A d \in Dir : WF_vars(Starting(d)) /\ WF_vars(Serving(d)) /\ SF_vars(Stop(d))
Spec == Init /\ [][Next]_vars /\ Fair
----------------------------------------------------------------------------
(* C23 *)
SameIdentity == \A d \in Dir : told[d] = told0[d]
OwnIdentity == \A d, e \in Dir : told[d] # 0 /\ told[d] = told[e] => d = e
Durable == \A d \in Dir : told[d] # 0 => seed[d] = told[d]
Starts == \A d \in Dir : (pc[d] = "open") ~> (pc[d] = "ready" \/ pc[d] = "off")
(* C24 *)
InOrder == \A d \in Dir : \A i, j \in DOMAIN done[d] : i < j => done[d][i] < done[d][j]
Wanted(c) == \E i \in DOMAIN log : log[i].op = "open" /\ log[i].c = c /\ log[i].k \in {"good", "late"}
OnlyWanted == Emit \/ \A d \in Dir : \A i \in DOMAIN done[d] : Wanted(done[d][i])
Waits(d, c) == \E i \in DOMAIN queue[d] : queue[d][i].c = c
Good(d, c) == \E i \in DOMAIN queue[d] : queue[d][i] = [c |-> c, k |-> "good"]
Acts(d, c) == \E i \in DOMAIN done[d] : done[d][i] = c
AllAct == \A d \in Dir : \A c \in 1..MaxConn : Good(d, c) ~> (Acts(d, c) \/ flag[d] \/ ~ Running(d))
NothingSkipped == [][\A d \in Dir : \A c \in 1..MaxConn : Good(d, c) /\ ~ Waits(d, c)' => Acts(d, c)' \/ pc'[d] = "off"]_vars
(* C25 *)
Stops == \A d \in Dir : (Running(d) /\ flag[d]) ~> ~ Running(d)
StopsWell == [][\A d \in Dir : Running(d) /\ pc'[d] = "off" /\ log' = log => status'[d] = "ok" /\ flag[d]]_vars

Abstract == <<conf, base, seed, sock, pc, mem, told, told0, flag, queue, done, keys, conns, status, Len(log)>>
=============================================================================
