----------------------------- MODULE Distributed ----------------------------
(* Processes holding pieces of one whole exchange them.                       *)
(*                                                                            *)
(* The protocol: everybody tells everybody which pieces it has and which it   *)
(* wants (a collective, nobody goes on before all have arrived); then each    *)
(* process posts one message for every other, the pieces that one wants one   *)
(* after the other with nothing to tell them apart; and each process takes    *)
(* the messages apart again, adding pieces that come from several owners.     *)
(* Sender and receiver have to agree on the order of the pieces.              *)
EXTENDS Common, TLC
CONSTANTS NP, NT, Order
VARIABLES has, wants, val, pc, posted, got, acc
vars == <<has, wants, val, pc, posted, got, acc>>
Procs == 1..NP
OrderedSubsets(n) == {<<>>} \cup UNION {{s \in [1..k -> 1..n] : \A a, b \in 1..k : a # b => s[a] # s[b]} : k \in 1..n}
RECURSIVE InOrder(_, _)
InOrder(S, t) == IF t > NT THEN <<>> ELSE (IF t \in S THEN <<t>> ELSE <<>>) \o InOrder(S, t + 1)
\* the pieces p sends q, in the order the sender (receiver) goes through them
SendOrder(p, q) == IF Order = "own" THEN SelectSeq(has[p], LAMBDA t : t \in Range(wants[q])) ELSE InOrder(Range(has[p]) \cap Range(wants[q]), 1)
RecvOrder(p, q) == IF Order = "own" THEN SelectSeq(wants[q], LAMBDA t : t \in Range(has[p])) ELSE InOrder(Range(has[p]) \cap Range(wants[q]), 1)
Value(p, t) == 2 ^ (((p - 1) * NT) + (t - 1))
Message(p, q) == [k \in 1..Len(SendOrder(p, q)) |-> val[p][SendOrder(p, q)[k]]]
Init == /\ has \in [Procs -> OrderedSubsets(NT)] /\ wants \in [Procs -> OrderedSubsets(NT)]
        /\ val = [p \in Procs |-> [t \in 1..NT |-> Value(p, t)]]
        /\ pc = [p \in Procs |-> "tell"] /\ posted = {} /\ got = {}
        /\ acc = [p \in Procs |-> [t \in 1..NT |-> 0]]
\* arriving at the first collective
Tell(p) == pc[p] = "tell" /\ pc' = [pc EXCEPT ![p] = "told"] /\ UNCHANGED <<has, wants, val, posted, got, acc>>
\* leaving it, which takes that all have arrived, and posting all messages
Post(p) == /\ pc[p] = "told" /\ \A q \in Procs : pc[q] # "tell"
           /\ pc' = [pc EXCEPT ![p] = "posted"]
           /\ posted' = posted \cup {[from |-> p, to |-> q, m |-> Message(p, q)] : q \in Procs}
           /\ UNCHANGED <<has, wants, val, got, acc>>
Take(p, q) == /\ pc[p] = "posted" /\ <<q, p>> \notin got
              /\ \E x \in posted : /\ x.from = q /\ x.to = p
                   /\ acc' = [acc EXCEPT ![p] = [t \in 1..NT |-> @[t] +
                        SumSeq([k \in 1..Len(RecvOrder(q, p)) |-> IF RecvOrder(q, p)[k] = t THEN x.m[k] ELSE 0])]]
              /\ got' = got \cup {<<q, p>>} /\ UNCHANGED <<has, wants, val, pc, posted>>
Leave(p) == /\ pc[p] = "posted" /\ \A q \in Procs : <<q, p>> \in got
            /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<has, wants, val, posted, got, acc>>
Next == \E p \in Procs : Tell(p) \/ Post(p) \/ Leave(p) \/ \E q \in Procs : Take(p, q)
Whole(p, t) == SumSeq([q \in 1..NP |-> IF t \in Range(has[q]) THEN val[q][t] ELSE 0])
\* what a process ends up with is what a single process holding everything would have
Right == \A p \in Procs : pc[p] = "done" => \A t \in 1..NT : acc[p][t] = IF t \in Range(wants[p]) THEN Whole(p, t) ELSE 0
Sizes == \A x \in posted : Len(x.m) = Len(RecvOrder(x.from, x.to))
\* nobody waits for ever
Live == (~ENABLED Next) => \A p \in Procs : pc[p] = "done"
\* splitting n things over the processes: process p (from 1) gets the part after Before
PartSize(n, P, p) == (n \div P) + (IF p <= n % P THEN 1 ELSE 0)
Before(n, P, p) == SumSeq([q \in 1..(p - 1) |-> PartSize(n, P, q)])
Split == \A n \in 0..9 : Before(n, NP, NP + 1) = n /\ \A p \in 2..NP : PartSize(n, NP, p) <= PartSize(n, NP, p - 1)
=============================================================================
