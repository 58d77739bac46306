------------------------------ MODULE PatchMC -------------------------------
(* A ring map, from which boxes are extracted and into which they are        *)
(* inserted, in any order. Pixels carry the label of the sky position they   *)
(* belong to; the map must stay consistent with the sky.                     *)
EXTENDS Patch
CONSTANTS W, NMax, BMax, LMax, TMax
VARIABLES n, map, cut, step, last
vars == <<n, map, cut, step, last>>
Init == /\ n \in 1..NMax /\ map = [x \in 0..(n - 1) |-> x]
        /\ cut = <<>> /\ step = 0 /\ last = <<0, 1, 0>>
Extract(b, t, m) == [j \in 1..m |-> LET s == Source(b, t, m, n, W)[j] IN IF s = Nowhere THEN -9 ELSE map[s]]
Insert(b, t, c) == [x \in 0..(n - 1) |-> LET h == Hits(b, t, Len(c), n, W, x) IN
                       IF h = {} THEN map[x] ELSE c[MaxOf(h) + 1]]
DoExtract == /\ step < 3 /\ step' = step + 1
             /\ \E b \in -BMax..BMax, t \in (-TMax..TMax) \ {0}, m \in 0..LMax :
                   cut' = Extract(b, t, m) /\ last' = <<b, t, m>>
             /\ UNCHANGED <<n, map>>
\* put the piece back, possibly some turns away from where it was taken
DoInsert == /\ step < 3 /\ step' = step + 1 /\ cut # <<>>
            /\ \E turn \in -1..1 : map' = Insert(last[1] + turn * W, last[2], cut)
            /\ UNCHANGED <<n, cut, last>>
Next == DoExtract \/ DoInsert
Consistent == \A x \in 0..(n - 1) : map[x] = x
CutRight == \A j \in 1..Len(cut) : LET p == last[1] + last[2] * (j - 1) IN
              \/ cut[j] = -9 /\ (\A x \in 0..(n - 1) : IF W = 0 THEN p # x ELSE (p - x) % W # 0)
              \/ cut[j] # -9 /\ (IF W = 0 THEN cut[j] = p ELSE (p - cut[j]) % W = 0)
\* strided pixels tile the axis without gaps
TilesB == \A j \in 1..(Len(cut) - 1) : BoxCentre2(last[1], last[2], j) - BoxCentre2(last[1], last[2], j - 1) = 2 * last[2]
Inv == Consistent /\ CutRight /\ TilesB
=============================================================================
