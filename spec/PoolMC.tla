------------------------------- MODULE PoolMC -------------------------------
(* The pool algorithm keeps its promises for every history *)
EXTENDS Pool
CONSTANTS Sizes, Align, MaxSteps
VARIABLES m, n, cyc, prev, prevsys
\* cyc: sizes asked for since the last reset; prev: in the cycle before that,
\* prevsys: did that cycle (with the reset before it) need the system
vars == <<m, n, cyc, prev, prevsys>>
Init == m = Empty /\ n = 0 /\ cyc = <<>> /\ prev = <<-1>> /\ prevsys = 0
Take == \E k \in Sizes : m' = Alloc(m, k, Align) /\ cyc' = Append(cyc, k) /\ UNCHANGED <<prev, prevsys>>
Turn == m' = Reset(m) /\ prev' = cyc /\ cyc' = <<>> /\ prevsys' = m'.sys
Drop == m' = Free(m) /\ prev' = <<-1>> /\ cyc' = <<>> /\ prevsys' = m.sys
Next == n < MaxSteps /\ n' = n + 1 /\ (Take \/ Turn \/ Drop)
NoOverlap == \A j, k \in 1..Len(m.live) : j < k => (m.live[j][1] # m.live[k][1] \/ Disjoint(m.live[j][2], m.live[j][3], m.live[k][2], m.live[k][3]))
Inside == \A j \in 1..Len(m.live) : m.live[j][2] + m.live[j][3] <= m.arenas[m.live[j][1]] /\ m.live[j][2] % Align = 0
\* a cycle that asks for the same as the one before it costs no system allocation
Steady == (Len(cyc) <= Len(prev) /\ cyc = SubSeq(prev, 1, Len(cyc))) => m.sys = prevsys
View == <<m.arenas, m.pos, m.size, m.cap, m.live, cyc, prev, m.sys - prevsys, n>>
=============================================================================
