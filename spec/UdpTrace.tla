------------------------------ MODULE UdpTrace ------------------------------
(* Recorded runs of a real node, checked against UdpNode.  In every batch the *)
(* caller's requests were made in order while the peers' datagrams arrived at *)
(* any time and in any order; when all had had their effect the next began.   *)
(* A run is explained if some behaviour of UdpNode reports exactly the        *)
(* recorded events, in their order, and sends exactly the recorded number of  *)
(* handshakes to each address.                                                *)
EXTENDS UdpNode, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, bn, ai, bag
tvars == <<tr, bn, ai, bag>>
all == <<vars, tvars>>

B(k, b) == Runs[k].batches[b]
D == {[a |-> a, k |-> k] : a \in Addr, k \in Kinds}
Bag(k, b) == [d \in D |-> Cardinality({i \in DOMAIN B(k, b).sends : B(k, b).sends[i] = d})]
TInit == Init /\ tr \in 1..Len(Runs) /\ bn = 1 /\ ai = 1 /\ bag = Bag(tr, 1)
Explained ==
    /\ Len(events') <= Len(Runs[tr].events)
    /\ Len(events') > Len(events) => events'[Len(events')] = Runs[tr].events[Len(events')]
    /\ \A a \in All : sent'[a] <= Runs[tr].sent[a]
Act == /\ ai <= Len(B(tr, bn).acts) /\ Connect(B(tr, bn).acts[ai].a, B(tr, bn).acts[ai].p) /\ ai' = ai + 1
       /\ UNCHANGED <<tr, bn, bag>>
Arrive == /\ buf = <<>> /\ \E d \in D : bag[d] > 0 /\ bag' = [bag EXCEPT ![d] = @ - 1] /\ buf' = <<d>>
          /\ pc' = "recv" /\ UNCHANGED <<deaf, flag, pending, workers, fresh, taken, caller, sent, wanted, events, log, tr, bn, ai>>
Effect == Recv /\ UNCHANGED tvars
Over == ai > Len(B(tr, bn).acts) /\ buf = <<>> /\ \A d \in D : bag[d] = 0
NextBatch == /\ Over /\ bn < Len(Runs[tr].batches) /\ bn' = bn + 1 /\ ai' = 1 /\ bag' = Bag(tr, bn + 1)
             /\ UNCHANGED <<vars, tr>>
TNext == (Act \/ Arrive \/ Effect \/ NextBatch) /\ Explained
TSpec == TInit /\ [][TNext]_all
Done == Over /\ bn = Len(Runs[tr].batches) /\ events = Runs[tr].events /\ \A a \in All : sent[a] = Runs[tr].sent[a]
TShow == ~ Done \/ PrintT("@@" \o ToString(tr))
(* what matters for the rest *)
TView == <<tr, bn, ai, bag, buf, pending, Len(events), sent>>
=============================================================================
