------------------------------ MODULE TilesGen ------------------------------
EXTENDS Tiles, TLC, Json, Randomization
CONSTANTS MaxOps, MaxObjs
VARIABLES n, t, P, A, s, hist, len
vars == <<n, t, P, A, s, hist, len>>
I == 1..MaxObjs
T == 0..8
Pool(h) == RandomSubset(2, [op: {"copy"}, i: I])
        \cup RandomSubset(3, [op: {"comp"}, i: I, c: 1..2])
        \cup RandomSubset(10, [op: {"bin"}, f: {"add", "sub", "mul"}, i: I, j: I])
        \cup RandomSubset(4, [op: {"binc", "ibinc"}, f: {"add", "sub", "mul"}, i: I, v: {-1, 2, 3}])
        \cup RandomSubset(12, [op: {"ibin"}, f: {"add", "sub", "mul"}, i: I, j: I])
        \cup RandomSubset(4, [op: {"with"}, i: I, j: I, strict: BOOLEAN])
        \cup RandomSubset(4, [op: {"with"}, i: I, j: {0}, strict: BOOLEAN, act: {<<>>, <<1>>, <<2, 0>>, <<0>>, <<1, 3, 0>>}])
        \cup RandomSubset(4, [op: {"tile"}, i: I, gi: T, v: {0, 5, -3}])
        \cup RandomSubset(4, [op: {"pix"}, i: I, gi: T, k: 0..5, v: {4, 6}])
        \cup RandomSubset(3, [op: {"sum"}, i: I])
        \cup RandomSubset(4, [op: {"insert"}, i: I, j: I])
Small(x) == \A b \in 1..Len(x.bufs) : \A c \in 1..Len(x.bufs[b].d) : \A k \in 1..Len(x.bufs[b].d[c]) : Abs(x.bufs[b].d[c][k]) < 40000
Tiles0 == NTile(n, t)
Known(o) == /\ (o.op \in {"tile", "pix"} => o.gi < Tiles0)
            /\ ((o.op = "with" /\ o.j = 0) => \A k \in 1..Len(o.act) : o.act[k] < Tiles0)
Init == /\ n \in (1..5) \X (1..5) /\ t \in (1..3) \X (1..3)
        /\ P \in {0, 0, 2} /\ A \in RandomSubset(2, SUBSET (0..Min2(NTile(n, t) - 1, 4)))
        /\ s = Start(n, t, P, A) /\ hist = <<>> /\ len \in 4..MaxOps
Do == /\ Len(hist) < len
      /\ \E o \in Pool(hist) : /\ Fits(s, o) /\ Same(s, o) /\ Known(o)
                         /\ (Len(s.objs) < MaxObjs \/ o.op \in {"ibin", "ibinc", "tile", "pix"})
                         /\ s' = Apply(n, t, s, o) /\ Small(s') /\ hist' = Append(hist, o)
      /\ UNCHANGED <<n, t, P, A, len>>
Emit == /\ Len(hist) = len
        /\ PrintT("GEN " \o ToJson([n |-> n, t |-> t, P |-> P, A |-> [k \in 0..(NTile(n, t) - 1) |-> k \in A], hist |-> hist]))
        /\ len' = 0 /\ UNCHANGED <<n, t, P, A, s, hist>>
Next == Do \/ Emit
=============================================================================
