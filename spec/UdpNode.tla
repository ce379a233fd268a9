------------------------------- MODULE UdpNode -------------------------------
(* The UDP node of vru-udp (C20, C21): the caller's commands, the peers'      *)
(* datagrams, the node's main loop, one worker per connection, shutting down. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Addr,      \* addresses peers send from
          Dead,      \* addresses nobody sends from
          Id,        \* identities
          MaxOps,    \* actions of the caller and the peers
          MaxBuf, Emit,
          Sync       \* peers wait until the datagram has been processed

All == Addr \cup Dead
None == 0
Good == "good"
Kinds == {Good, "bad"}

VARIABLES flag,      \* running
          deaf,      \* the caller has given up the event stream
          pc,        \* main loop: "check", "wait", "recv", "closing", "ended"
          buf,       \* received datagrams not yet read
          pending,   \* requests by address
          workers,   \* connections: queue of messages, alive
          fresh,     \* latest worker of an identity whose handle was not taken yet
          taken,     \* handle the caller took
          caller,    \* "free", "joining", "joined"
          sent,      \* handshakes sent to an address
          wanted,    \* requests accepted for an address
          events, log
vars == <<deaf, flag, pc, buf, pending, workers, fresh, taken, caller, sent, wanted, events, log>>
main == <<pc, buf, pending, workers, fresh, sent>>

E0 == [op |-> "", a |-> 0, p |-> 0, k |-> "", ev |-> "", hs |-> FALSE, n |-> 1]
Log(e) == log' = Append(log, e)
Go == Len(log) < MaxOps
Event(k, a) == events' = Append(events, [k |-> k, a |-> a])
Quiet == UNCHANGED events
(* what is reported to nobody is lost *)
Heard(e) == IF deaf THEN "" ELSE e

Init ==
    /\ deaf = FALSE /\ flag = TRUE /\ pc = "check" /\ buf = <<>> /\ pending = [a \in All |-> None] /\ workers = <<>>
    /\ fresh = [p \in Id |-> 0] /\ taken = [p \in Id |-> 0] /\ caller = "free"
    /\ sent = [a \in All |-> 0] /\ wanted = [a \in All |-> 0] /\ events = <<>> /\ log = <<>>
----------------------------------------------------------------------------
(* the caller *)
Connect(a, p) ==
    /\ Go /\ caller = "free"
    /\ IF pending[a] # None
       THEN Event("failed", a) /\ UNCHANGED <<pending, wanted>> /\ Log([E0 EXCEPT !.op = "connect", !.a = a, !.p = p, !.ev = Heard("failed")])
       ELSE /\ pending' = [pending EXCEPT ![a] = p] /\ wanted' = [wanted EXCEPT ![a] = @ + 1] /\ Quiet
            /\ Log([E0 EXCEPT !.op = "connect", !.a = a, !.p = p])
    /\ UNCHANGED <<deaf, flag, pc, buf, workers, fresh, taken, caller, sent>>
Tell(w) == IF workers[w].alive THEN workers' = [workers EXCEPT ![w].q = Append(@, "command")] ELSE UNCHANGED workers
Local(p) ==
    /\ Go /\ caller = "free" /\ Log([E0 EXCEPT !.op = "local", !.p = p])
    /\ IF taken[p] # 0 THEN Tell(taken[p]) /\ UNCHANGED <<taken, fresh>>
       ELSE IF fresh[p] # 0 THEN Tell(fresh[p]) /\ taken' = [taken EXCEPT ![p] = fresh[p]] /\ fresh' = [fresh EXCEPT ![p] = 0]
       ELSE UNCHANGED <<workers, taken, fresh>>
    /\ UNCHANGED <<deaf, flag, pc, buf, pending, caller, sent, wanted, events>>
Clear == /\ Go /\ flag /\ flag' = FALSE /\ Log([E0 EXCEPT !.op = "clear"])
         /\ UNCHANGED <<deaf, main, taken, caller, wanted, events>>
(* the application handles a signal: an interrupted wait is taken up again, if the flag is set *)
Interrupted == /\ pc' = (IF pc = "wait" /\ ~ flag THEN "ended" ELSE pc)
               /\ UNCHANGED <<deaf, flag, buf, pending, workers, fresh, taken, caller, sent, wanted, events>>
Signal == Go /\ caller = "free" /\ Interrupted /\ Log([E0 EXCEPT !.op = "signal"])
(* nothing happens for a while *)
Idle == /\ Go /\ caller = "free" /\ Log([E0 EXCEPT !.op = "idle"])
        /\ UNCHANGED <<deaf, flag, main, taken, caller, wanted, events>>
(* the caller drops the event stream; everything else goes on *)
Deaf == /\ Go /\ caller = "free" /\ ~ deaf /\ deaf' = TRUE /\ Log([E0 EXCEPT !.op = "deaf"])
        /\ UNCHANGED <<flag, main, taken, caller, wanted, events>>
(* the caller does not look at the events for a while; they are there when it does again *)
Away(k) == /\ Go /\ caller = "free" /\ Log([E0 EXCEPT !.op = "away", !.k = k])
           /\ UNCHANGED <<deaf, flag, main, taken, caller, wanted, events>>
(* join; when it returns, the handles the caller kept are gone *)
Join == /\ Go /\ caller = "free" /\ ~ flag /\ caller' = "joining" /\ Log([E0 EXCEPT !.op = "join"])
        /\ UNCHANGED <<deaf, flag, main, taken, wanted, events>>
Joined == /\ caller = "joining" /\ pc = "ended" /\ caller' = "joined"
          /\ UNCHANGED <<deaf, flag, main, taken, wanted, events, log>>
(* the peers *)
Send(a, k) ==
    /\ Go /\ Len(buf) < MaxBuf /\ (Sync => buf = <<>> /\ pc # "recv")
    /\ buf' = Append(buf, [a |-> a, k |-> k])
    /\ Log([E0 EXCEPT !.op = "send", !.a = a, !.k = k,
                      !.ev = IF k # Good THEN Heard("size") ELSE IF pending[a] # None THEN "" ELSE Heard("incoming"),
                      !.hs = k = Good /\ pending[a] # None])
    /\ UNCHANGED <<deaf, flag, pc, pending, workers, fresh, taken, caller, sent, wanted, events>>
----------------------------------------------------------------------------
(* the main loop *)
Check == /\ pc = "check" /\ pc' = (IF flag THEN "wait" ELSE "closing")
         /\ UNCHANGED <<deaf, flag, buf, pending, workers, fresh, taken, caller, sent, wanted, events, log>>
Wake == /\ pc = "wait" /\ buf # <<>> /\ pc' = "recv"
        /\ UNCHANGED <<deaf, flag, buf, pending, workers, fresh, taken, caller, sent, wanted, events, log>>
Timeout == /\ pc = "wait" /\ buf = <<>> /\ ~ flag /\ pc' = "ended"
           /\ UNCHANGED <<deaf, flag, buf, pending, workers, fresh, taken, caller, sent, wanted, events, log>>
Recv ==
    LET d == Head(buf) p == pending[d.a]
    IN /\ pc = "recv" /\ pc' = "check" /\ buf' = Tail(buf)
       /\ IF d.k # Good THEN Event("size", d.a) /\ UNCHANGED <<pending, workers, fresh, sent>>
          ELSE IF p = None THEN Event("incoming", d.a) /\ UNCHANGED <<pending, workers, fresh, sent>>
          ELSE /\ pending' = [pending EXCEPT ![d.a] = None]
               /\ sent' = [sent EXCEPT ![d.a] = @ + 1]
               /\ workers' = Append(workers, [q |-> <<"network">>, alive |-> TRUE])
               /\ fresh' = [fresh EXCEPT ![p] = Len(workers) + 1]
               /\ Quiet
       /\ UNCHANGED <<deaf, flag, taken, caller, wanted, log>>
(* every worker is told to stop and waited for *)
Close ==
    /\ pc = "closing"
    /\ IF \A w \in DOMAIN workers : ~ workers[w].alive THEN pc' = "ended" /\ UNCHANGED workers
       ELSE LET w == CHOOSE w \in DOMAIN workers : workers[w].alive
            IN pc' = pc /\ "shutdown" \notin {workers[w].q[i] : i \in DOMAIN workers[w].q}
               /\ workers' = [workers EXCEPT ![w].q = Append(@, "shutdown")]
    /\ UNCHANGED <<deaf, flag, buf, pending, fresh, taken, caller, sent, wanted, events, log>>
(* a worker takes a message, or ends because nobody can send any more *)
Senders(w) == (pc # "ended") \/ (caller # "joined" /\ \E p \in Id : taken[p] = w \/ fresh[p] = w)
Work(w) ==
    /\ workers[w].alive
    /\ \/ /\ workers[w].q # <<>>
          /\ workers' = [workers EXCEPT ![w] = [q |-> Tail(@.q), alive |-> Head(@.q) # "shutdown"]]
       \/ /\ workers[w].q = <<>> /\ ~ Senders(w)
          /\ workers' = [workers EXCEPT ![w].alive = FALSE]
    /\ UNCHANGED <<deaf, flag, pc, buf, pending, fresh, taken, caller, sent, wanted, events, log>>

Main == Check \/ Wake \/ Timeout \/ Recv \/ Close
Works == \E w \in DOMAIN workers : Work(w)
Caller == \/ \E a \in All, p \in Id : Connect(a, p)
          \/ \E p \in Id : Local(p)
          \/ Clear \/ Deaf \/ (Interrupted /\ UNCHANGED log) \/ Join
Peers == \E a \in Addr, k \in Kinds : Send(a, k)
Next == Caller \/ Joined \/ Peers \/ Main \/ Works
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Joined) /\ \A w \in 1..MaxOps : WF_vars(w \in DOMAIN workers /\ Work(w))
----------------------------------------------------------------------------
(* C20 *)
(* as many handshakes as requests used up, never more than requests *)
OneEach == \A a \in All : sent[a] + (IF pending[a] # None THEN 1 ELSE 0) = wanted[a]
(* a request ends only by a well-formed datagram from its address, and a handshake goes there *)
Kept == [][\A a \in All : pending[a] # None /\ pending'[a] # pending[a] =>
              /\ pending'[a] = None /\ sent'[a] = sent[a] + 1
              /\ pc = "recv" /\ Head(buf).a = a /\ Head(buf).k = Good]_vars
(* every datagram read has exactly one effect *)
OneEffect == [][pc = "recv" /\ pc' = "check" =>
    LET a == Head(buf).a
        e == Len(events') - Len(events)
        h == sent'[a] - sent[a]
    IN /\ e + h = 1
       /\ \A b \in All \ {a} : sent'[b] = sent[b] /\ pending'[b] = pending[b]
       /\ (e = 1 => pending' = pending /\ events'[Len(events')].a = a)]_vars
(* C21 *)
Ends == ~ flag ~> pc = "ended"
Returns == (caller = "joining") ~> (caller = "joined")
(* nobody is left who could report anything *)
StreamEnded == caller = "joined" /\ pc = "ended" /\ \A w \in DOMAIN workers : ~ workers[w].alive
Finishes == (caller = "joined") ~> [] StreamEnded

Abstract == <<deaf, flag, pc, buf, pending, workers, fresh, taken, caller, sent, wanted, Len(log)>>
Show == ~ Emit \/ ~ (caller = "joined") \/ PrintT("@@" \o ToJson(log))
=============================================================================
