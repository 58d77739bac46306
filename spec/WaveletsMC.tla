----------------------------- MODULE WaveletsMC -----------------------------
(* The decomposition carried out scale by scale: the coefficients of a signal *)
(* are taken into the scales and put back together in any order; scales only  *)
(* keep the multipoles they need. Haar pyramids of every small size.          *)
EXTENDS Wavelets
CONSTANTS NL, Q, NScale, MaxN
VARIABLES st
Filters == {k \in [1..NL -> 0..Q] : \A l \in 1..(NL - 1) : k[l] >= k[l + 1]}
Rising == {K \in [1..(NScale - 1) -> Filters] : \A j \in 1..(NScale - 2) : \A l \in 1..NL : K[j][l] <= K[j + 1][l]}
LMax(K, j) == IF j = NScale THEN NL ELSE MaxOf({0} \cup {l \in 1..NL : K[j][l] > 0})
Init == \/ \E K \in Rising : st = [k |-> "wave", K |-> K, todo |-> 1..NScale, acc |-> [l \in 1..NL |-> 0]]
        \/ \E ny, nx \in 1..MaxN : \E o1, o2, o3, o4 \in 0..1 : \E bump \in 0..((ny * nx) - 1) :
             st = [k |-> "haar", ny |-> ny, nx |-> nx, offs |-> <<<<o1, o2>>, <<o3, o4>>>>,
                   m |-> [j \in 1..(ny * nx) |-> 16 * ((IF j = bump + 1 THEN 7 ELSE 0) + (j % 3))]]
        \/ \E p \in [1..4 -> 0..9] : (\A j \in 1..3 : p[j] < p[j + 1]) /\ st = [k |-> "needle", p |-> p]
        \/ \E n, m \in {4, 5, 6, 9, 10} : \E f \in -4..4 : \E x \in 0..9 : x < m /\ st = [k |-> "phase", n |-> n, m |-> m, f |-> f, x |-> x]
\* one scale returns: its (unit) coefficients times its squared profile, for the multipoles its map can hold
Next == st.k = "wave" /\ \E j \in st.todo :
        st' = [st EXCEPT !.todo = @ \ {j}, !.acc = [l \in 1..NL |-> @[l] + (IF l <= LMax(st.K, j) THEN Band(st.K, Q, j, l) ELSE 0)]]
Bounded == st.k = "wave" => \A l \in 1..NL : st.acc[l] >= 0 /\ st.acc[l] <= Q
Complete == (st.k = "wave" /\ st.todo = {}) => \A l \in 1..NL : st.acc[l] = Q
HaarInverse == st.k = "haar" => Collapse(Pyramid(st.m, st.ny, st.nx, st.offs, 1), st.offs, 1) = st.m
HaarDetail == st.k = "haar" => LET P == Pyramid(st.m, st.ny, st.nx, st.offs, 1) IN
   \* every scale but the last averages to nothing in each of its blocks, and the scales shrink
   /\ \A k \in 1..2 : LET d == Down(P[k].m, P[k].ny, P[k].nx, st.offs[k][1], st.offs[k][2]) IN \A j \in 1..Len(d) : Near(d[j], 0, 1)
   /\ \A k \in 1..2 : P[k + 1].ny = NBlocks(P[k].ny, st.offs[k][1]) /\ 2 * P[k + 1].ny <= P[k].ny + 2
HaarCover == st.k = "haar" => \A y \in 0..(st.ny - 1) : Block(y, st.offs[1][1]) \in 0..(NBlocks(st.ny, st.offs[1][1]) - 1)
NeedletUnity == st.k = "needle" => \A l \in st.p[1]..st.p[4] :
   Near(SumSeq([j \in 1..4 |-> RDiv(Needlet(st.p, j, l) * (Needlet(st.p, j, l) \div 10), Unit \div 10)]), Unit, 20)
\* both grids see the same wave where their pixels coincide
SamePlace == st.k = "phase" => \A x2 \in 0..(st.n - 1) : (((2 * st.x) + 1) * st.n) = (((2 * x2) + 1) * st.m) =>
   Cos(PhaseCorner(st.f, st.x, st.m), 2 * st.m) = Cos(PhaseCorner(st.f, x2, st.n), 2 * st.n)
=============================================================================
