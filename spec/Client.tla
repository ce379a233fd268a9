------------------------------- MODULE Client -------------------------------
(* The command-line client (C24): every run with well-formed arguments gives  *)
(* whoever listens on the control socket one connection with one command, the *)
(* one of the arguments; a run while nobody listens has no effect, ever.      *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Peers, Places, Texts, MaxOps, Emit

VARIABLES up,      \* somebody listens
          runs,    \* commands of the runs made while somebody listened
          got,     \* commands that arrived, one per connection
          log
vars == <<up, runs, got, log>>
E0 == [op |-> "", p |-> 0, x |-> "", up |-> FALSE]
Log(e) == log' = Append(log, e)
More == Len(log) < MaxOps

Init == up = FALSE /\ runs = <<>> /\ got = <<>> /\ log = <<>>
Toggle == More /\ up' = ~ up /\ Log([E0 EXCEPT !.op = "toggle", !.up = ~ up]) /\ UNCHANGED <<runs, got>>
Run(op, p, x) ==
    LET c == [op |-> op, p |-> p, x |-> x]
    IN /\ More /\ Log([op |-> op, p |-> p, x |-> x, up |-> up])
       /\ IF up THEN runs' = Append(runs, c) /\ got' = Append(got, c) ELSE UNCHANGED <<runs, got>>
       /\ UNCHANGED up
Connect(p, a) == Run("connect", p, a)
SendText(p, t) == Run("send-text", p, t)
Next == Toggle \/ (\E p \in Peers : (\E a \in Places : Connect(p, a)) \/ (\E t \in Texts : SendText(p, t)))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
AsAsked == got = runs
Counted == Len(got) = Len(SelectSeq(log, LAMBDA e : e.op # "toggle" /\ e.up))

Rnd(T) == RandomElement(IF Len(log) > MaxOps THEN {} ELSE T)
Pick(T) == {Rnd(T)}
GenNext == \E r \in Pick(1..100), p \in Pick(Peers), a \in Pick(Places), t \in Pick(Texts) :
               IF log = <<>> \/ r <= (IF up THEN 8 ELSE 50) THEN Toggle ELSE IF r % 2 = 0 THEN Connect(p, a) ELSE SendText(p, t)
GenSpec == Init /\ [][GenNext]_vars
Show == ~ Emit \/ Len(log) < MaxOps \/ PrintT("@@" \o ToJson(log))
=============================================================================
