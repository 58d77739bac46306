--------------------------- MODULE DistributedGen ---------------------------
(* Behaviours of the exchange: who has and wants what, in which order, and    *)
(* the order in which the processes get to the collectives.                   *)
EXTENDS Distributed, Json, Randomization
VARIABLES hist
GInit == /\ has \in RandomSubset(8, [Procs -> OrderedSubsets(NT)]) /\ wants \in RandomSubset(8, [Procs -> OrderedSubsets(NT)])
         /\ val = [p \in Procs |-> [t \in 1..NT |-> 0]]
         /\ pc = [p \in Procs |-> "tell"] /\ posted = {} /\ got = {}
         /\ acc = [p \in Procs |-> [t \in 1..NT |-> 0]] /\ hist = <<>>
GNext == \/ \E p \in Procs : (Tell(p) \/ Post(p)) /\ hist' = Append(hist, p)
         \/ \E p, q \in Procs : Take(p, q) /\ UNCHANGED hist
         \/ \E p \in Procs : 
              /\ Leave(p) /\ UNCHANGED hist
              /\ IF \E q \in Procs \ {p} : pc[q] # "done" THEN TRUE ELSE
                 PrintT("GEN " \o ToJson([has |-> [q \in Procs |-> [k \in 1..Len(has[q]) |-> has[q][k] - 1]],
                                          wants |-> [q \in Procs |-> [k \in 1..Len(wants[q]) |-> wants[q][k] - 1]],
                                          perms |-> <<[k \in 1..NP |-> hist[k] - 1], [k \in 1..NP |-> hist[NP + k] - 1]>>]))
=============================================================================
