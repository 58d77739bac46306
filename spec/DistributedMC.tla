---------------------------- MODULE DistributedMC ---------------------------
(* DistributedMC.cfg: two processes, three pieces; DistributedMC3.cfg: three  *)
(* processes. With Order = "own" (each side goes through its own list, as the *)
(* code did) TLC finds two processes whose lists are ordered differently.     *)
EXTENDS Distributed
\* the pieces may be numbered such that the first process has the first ones, in order
MInit == Init /\ has[1] = [k \in 1..Len(has[1]) |-> k]
=============================================================================
