------------------------------ MODULE TilesMC -------------------------------
(* The layout is a partition of the map; operations keep inactive tiles zero *)
(* and never touch maps that share no storage with their target.             *)
EXTENDS Tiles, TLC
CONSTANTS MaxN, MaxOps
VARIABLES n, t, s, steps, last
vars == <<n, t, s, steps, last>>
Ops == [op: {"copy", "sum"}, i: 1..3] \cup [op: {"comp"}, i: 1..3, c: 1..2]
       \cup [op: {"bin", "ibin"}, f: {"add", "mul"}, i: 1..3, j: 1..3]
       \cup [op: {"with"}, i: 1..3, j: 1..3, strict: BOOLEAN] \cup [op: {"with"}, i: 1..3, j: {0}, strict: BOOLEAN, act: {<<>>, <<0>>}]
       \cup [op: {"tile"}, i: 1..3, gi: 0..1, v: {9}] \cup [op: {"insert"}, i: 1..3, j: 1..3]
Init == /\ n \in (1..MaxN) \X (1..MaxN) /\ t \in (1..2) \X (1..3)
        /\ \E P \in {0, 2} : \E A \in SUBSET {0, 1, 2} : A \subseteq 0..(NTile(n, t) - 1) /\ s = Start(n, t, P, A)
        /\ steps = 0 /\ last = [op |-> "none"]
Do == /\ steps < MaxOps
      /\ \E o \in Ops : /\ Fits(s, o) /\ Same(s, o)
                        /\ (o.op = "tile" => o.gi < NTile(n, t))
                        /\ s' = Apply(n, t, s, o) /\ last' = [o |-> o, pre |-> s, op |-> o.op]
      /\ steps' = steps + 1 /\ UNCHANGED <<n, t>>
Next == Do
Spec == Init /\ [][Next]_vars
\* all tiles together hold every pixel exactly once
Partition == LET L == Layout(n, t, [k \in 1..NTile(n, t) |-> k - 1]) IN
   Len(L) = n[1] * n[2] /\ {L[k] : k \in 1..Len(L)} = 0..(n[1] * n[2] - 1)
Member == \A gi \in 0..(NTile(n, t) - 1) : \A k \in 1..Len(TilePix(n, t, gi)) : TileOf(n, t, TilePix(n, t, gi)[k]) = gi
Zero == \A b \in 1..Len(s.bufs) : \A c \in 1..Len(s.bufs[b].d) : s.bufs[b].d[c] = Restrict(n, t, s.bufs[b].act, s.bufs[b].d[c])
\* a step changes at most the buffer its target lives in
Local == last.op # "none" => \A b \in 1..Len(last.pre.bufs) : b # last.pre.objs[last.o.i].b => s.bufs[b] = last.pre.bufs[b]
Pure == last.op \in {"copy", "bin", "with", "sum", "insert", "comp"} => \A b \in 1..Len(last.pre.bufs) : s.bufs[b] = last.pre.bufs[b]
\* storing and reading back
Round == \A b \in 1..Len(s.bufs) : LET act == [k \in 1..NTile(n, t) |-> k - 1]
                                       L == Layout(n, t, act)
                                       st == Store(n, t, act, s.bufs[b].d[1]) IN
          [p \in 1..Len(s.bufs[b].d[1]) |-> st[CHOOSE k \in 1..Len(L) : L[k] = p - 1]] = s.bufs[b].d[1]
=============================================================================
