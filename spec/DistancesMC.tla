---------------------------- MODULE DistancesMC -----------------------------
(* Front propagation on an N by N grid: a pixel whose owner improved offers  *)
(* that owner to its four neighbours. Pixels waiting to spread are processed *)
(* in any order (cells run in parallel). Points lie on a grid twice as fine, *)
(* possibly outside the map, several per pixel.                              *)
EXTENDS Common
CONSTANTS N, NP, Hi, Single
VARIABLES pts, owner, front
vars == <<pts, owner, front>>
Rank(px) == (px[1] * N) + px[2]
Pix == (0..(N - 1)) \X (0..(N - 1))
(* squared distance in units of half a pixel *)
D2(px, q) == ((2 * px[1] - q[1]) * (2 * px[1] - q[1])) + ((2 * px[2] - q[2]) * (2 * px[2] - q[2]))
Home(q) == <<FDiv(q[1] + 1, 2), FDiv(q[2] + 1, 2)>>
Outside == {j \in 1..NP : Home(pts[j]) \notin Pix}
Border == {px \in Pix : px[1] \in {0, N - 1} \/ px[2] \in {0, N - 1}}
Best(px, S) == CHOOSE j \in S : \A k \in S : D2(px, pts[j]) < D2(px, pts[k]) \/ (D2(px, pts[j]) = D2(px, pts[k]) /\ j <= k)
(* Points in the map start at their own pixel. A point outside it starts at every *)
(* pixel of the border that is closer to it than to other points outside the map; *)
(* starting only at the one closest to it (Single = TRUE) loses its domain when    *)
(* that pixel belongs to a point inside the map, on larger maps.                   *)
Starts(j) == IF j \notin Outside THEN {Home(pts[j])}
             ELSE LET B == {px \in Border : Best(px, Outside) = j} IN
                  IF Single THEN {px \in B : \A q \in B : (D2(px, pts[j]) * 100) + Rank(px) <= (D2(q, pts[j]) * 100) + Rank(q)} ELSE B
Coord == {0, 3, 4, Hi}
Init == /\ pts \in [1..NP -> Coord \X Coord]
        /\ \A j \in 1..(NP - 1) : (pts[j][1] * 100) + pts[j][2] <= (pts[j + 1][1] * 100) + pts[j + 1][2]
        /\ owner = [px \in Pix |-> LET S == {j \in 1..NP : px \in Starts(j)} IN IF S = {} THEN 0 ELSE Best(px, S)]
        /\ front = {px \in Pix : \E j \in 1..NP : px \in Starts(j)}
Neigh(px) == {<<px[1] + 1, px[2]>>, <<px[1] - 1, px[2]>>, <<px[1], px[2] + 1>>, <<px[1], px[2] - 1>>} \cap Pix
Better(px, j) == owner[px] = 0 \/ D2(px, pts[j]) < D2(px, pts[owner[px]])
(* Deterministic sweep within a pixel; any order between pixels *)
Spread(px) == LET j == owner[px]
                  W == {q \in Neigh(px) : Better(q, j)} IN
   /\ owner' = [q \in Pix |-> IF q \in W THEN j ELSE owner[q]]
   /\ front' = (front \ {px}) \cup W
   /\ UNCHANGED pts
(* Two representatives of all orders: first and last in row-major order, plus any *)
Next == \E px \in front : (\A q \in front : Rank(px) <= Rank(q) \/ (Rank(px) >= Rank(q) /\ Cardinality(front) <= 3)) /\ Spread(px)
Spec == Init /\ [][Next]_vars
TrueD(px) == MinOf({D2(px, pts[j]) : j \in 1..NP})
(* sqrt(a) <= sqrt(b) + k *)
Within(a, b, k) == a - b - (k * k) <= 0 \/ (a - b - (k * k)) * (a - b - (k * k)) <= 4 * k * k * b
Started == \A px \in Pix : (\E j \in 1..NP : px \in Starts(j)) => owner[px] # 0
Complete == front = {} => \A px \in Pix : owner[px] # 0
NeverBelow == \A px \in Pix : owner[px] # 0 => D2(px, pts[owner[px]]) >= TrueD(px)
Close == front = {} => \A px \in Pix : Within(D2(px, pts[owner[px]]), TrueD(px), 3)
(* Nothing left to improve between neighbours *)
Stable == front = {} => \A px \in Pix : \A q \in Neigh(px) : D2(q, pts[owner[q]]) <= D2(q, pts[owner[px]])
=============================================================================
