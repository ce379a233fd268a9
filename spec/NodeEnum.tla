------------------------------ MODULE NodeEnum ------------------------------
(* Scripts that end a starting process at every one of its file-system        *)
(* operations, on a new directory, on one used before, on one whose first     *)
(* start was ended at any earlier point; then ordinary starts.                *)
EXTENDS NodeProc

CONSTANTS Points, First

E(op, c, k) == [op |-> op, d |-> 1, c |-> c, k |-> k]
Doomed(x) == << E("start", x[1], x[2]), E("kill", 0, "") >>
Plain == << E("start", 0, ""), E("open", 1, "good"), E("settle", 0, "") >>
At == (1..Points) \X {"before", "torn", "after"}
Befores == {<<>>, Plain \o <<E("kill", 0, "")>>, Plain \o <<E("int", 0, "")>>} \cup {Doomed(x) : x \in First \X {"torn", "after"}}
Script(b, x) == b \o Doomed(x) \o Plain \o <<E("kill", 0, ""), E("start", 0, ""), E("int", 0, "")>>
VARIABLE left
EInit == Init /\ left = Befores \X At
ENext == \E x \in left : left' = {} /\ log' = Script(x[1], x[2])
                        /\ UNCHANGED <<disk, pc, mem, told, told0, flag, queue, done, keys, conns, status>>
ESpec == EInit /\ [][ENext]_<<vars, left>>
EShow == log = <<>> \/ PrintT("@@" \o ToJson(log))
=============================================================================
