----------------------------- MODULE PadtilesMC -----------------------------
(* Several workers, each taking every step-th tile, accumulate tiles holding *)
(* a copy of the map. Whatever the order, the result is the map.             *)
EXTENDS Padtiles
CONSTANTS MaxN, MaxT, Workers
VARIABLES n, t, p, g, next, acc
vars == <<n, t, p, g, next, acc>>
Shapes(k) == (1..k) \X (1..k)
Pixels == (0..(n[1] - 1)) \X (0..(n[2] - 1))
M(nn) == [q \in 1..(nn[1] * nn[2]) |-> 3 * q - 5]
Init == /\ n \in Shapes(MaxN) /\ t \in Shapes(MaxT)
        /\ p \in (0..2) \X (0..1) /\ g \in {<<0, 0>>, <<1, 2>>}
        /\ 2 * p[1] <= t[1] /\ 2 * p[2] <= t[2]
        /\ Tiles(n, t) <= 6
        /\ next = [w \in 0..(Workers - 1) |-> w]
        /\ acc = [q \in 1..(n[1] * n[2]) |-> 0]
Work(w) == LET ti == next[w]
               d == ReadTile(M(n), n, t, p, g, 0, ti) IN
  /\ ti < Tiles(n, t)
  /\ next' = [next EXCEPT ![w] = ti + Workers]
  /\ acc' = [q \in 1..(n[1] * n[2]) |->
               LET y == (q - 1) \div n[2]
                   x == (q - 1) % n[2]
                   wt == W2(ti, n, t, p, y, x)
               IN  IF wt = 0 THEN acc[q] ELSE acc[q] + (wt * TileVal(d, n, t, p, g, ti, y, x))]
  /\ UNCHANGED <<n, t, p, g>>
Next == \E w \in 0..(Workers - 1) : Work(w)
Spec == Init /\ [][Next]_vars
Done == \A w \in 0..(Workers - 1) : next[w] >= Tiles(n, t)
(* The weights of all tiles covering a pixel sum to one *)
SumToOne == \A y \in 0..(n[1] - 1), x \in 0..(n[2] - 1) :
               SumSeq([k \in 1..Tiles(n, t) |-> W2(k - 1, n, t, p, y, x)]) = Full(p)
Positive == \A k \in 0..(Tiles(n, t) - 1) : \A y \in 0..(n[1] - 1), x \in 0..(n[2] - 1) : W2(k, n, t, p, y, x) >= 0
(* At most two tiles per axis share a pixel *)
Shared == \A y \in 0..(n[1] - 1) : Cardinality({k \in 0..(Count(n[1], t[1]) - 1) : WeightAt(k, n[1], t[1], p[1], y) > 0}) \in {1, 2}
Reconstructed == Done => \A q \in 1..(n[1] * n[2]) : acc[q] = Full(p) * M(n)[q]
(* Each tile's own logical pixels get at least half their weight from it *)
Own == \A k \in 0..(Count(n[1], t[1]) - 1) : \A y \in 0..(n[1] - 1) :
         (y >= k * t[1] /\ y < (k + 1) * t[1]) => 2 * WeightAt(k, n[1], t[1], p[1], y) >= One(p[1])
=============================================================================
