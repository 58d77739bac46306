---------------------------- MODULE ContainerGen ----------------------------
(* Histories of operations on maps, to be replayed into the real code        *)
EXTENDS Container, TLC, Json, Randomization
CONSTANTS MaxOps, MaxObjs
VARIABLES n, s, hist, len
vars == <<n, s, hist, len>>
I == 1..MaxObjs
Pool(h) == RandomSubset(4, [op: Copies, i: I])
        \cup RandomSubset(3, [op: {"rows", "cols"}, i: I, lo: 0..2, hi: 1..3])
        \cup RandomSubset(5, [op: {"bin"}, f: {"add", "sub", "mul", "max", "min"}, i: I, j: I])
        \cup RandomSubset(2, [op: {"binc", "rbinc"}, f: {"add", "sub", "mul", "max", "min"}, i: I, c: {-1, 2, 3}])
        \cup RandomSubset(8, [op: {"ibin"}, f: {"add", "sub", "mul"}, i: I, j: I])
        \cup RandomSubset(2, [op: {"ibinc"}, f: {"add", "sub", "mul"}, i: I, c: {-1, 2, 3}])
        \cup RandomSubset(3, [op: {"set"}, i: I, k: 1..6, c: {0, 5}])
        \cup RandomSubset(6, [op: {"assign"}, i: I, j: I])
        \cup RandomSubset(3, [op: {"geo"}, i: I, d: {<<1, 0>>, <<0, -2>>}])
Small(t) == \A b \in 1..Len(t.bufs) : \A k \in 1..Len(t.bufs[b]) : Abs(t.bufs[b][k]) < 40000
Init == n \in (1..3) \X (1..3) /\ s = Start(n) /\ hist = <<>> /\ len \in 3..MaxOps
Do == /\ Len(hist) < len
      /\ \E o \in Pool(hist) : /\ Fits(s, o)
                         /\ (Len(s.objs) < MaxObjs \/ o.op \in {"ibin", "ibinc", "set", "assign", "geo"})
                         /\ s' = Apply(s, o) /\ Small(s') /\ hist' = Append(hist, o)
      /\ UNCHANGED <<n, len>>
Emit == /\ Len(hist) = len
        /\ PrintT("GEN " \o ToJson([n |-> n, hist |-> hist]))
        /\ len' = 0 /\ UNCHANGED <<n, s, hist>>
Next == Do \/ Emit
=============================================================================
