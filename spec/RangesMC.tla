------------------------------ MODULE RangesMC ------------------------------
(* The one-pass algorithms compute the set operations; box formulas agree    *)
(* with the sequences they stand for.                                        *)
EXTENDS Ranges, TLC
CONSTANTS M
VARIABLES A, B, s, t
vars == <<A, B, s, t>>
R1 == {r \in (0..M) \X (0..M) : r[1] < r[2]}
Lists == {<<>>} \cup {<<r>> : r \in R1} \cup {x \in R1 \X R1 : x[1][1] <= x[2][1]}
Sep == {x \in Lists : Disjoint(x)}
Boxes == {x \in (0..M) \X (-1..(M + 1)) \X {-2, -1, 1, 2, 3} : SLen(x) > 0 /\ \A v \in SSet(x) : v \in 0..M}
Init == \/ A \in Lists /\ B \in Sep /\ s = <<0, 1, 1>> /\ t = <<0, 1, 1>>
        \/ A = <<>> /\ B = <<>> /\ s \in Boxes /\ t \in Boxes
Next == FALSE /\ UNCHANGED vars
SubOk == Disjoint(A) => LET c == SubPass(A, B) IN Cells(c) = Cells(A) \ Cells(B) /\ Disjoint(c) /\ Proper(c) /\ Ascending(c)
MergeOk == LET c == MergePass(A, <<>>) IN Cells(c) = Cells(A) /\ Disjoint(c) /\ \A k \in 1..(Len(c) - 1) : c[k][2] < c[k + 1][1]
FlipOk == SEl(Flip(s)) = Rev(SEl(s)) /\ SEl(Fix(s)) = SEl(s)
MulOk == (\A v \in SSet(t) : v < SLen(s)) => SEl(ComposeBox(s, t)) = Compose(s, t)
LcmOk == LET a == Abs(s[3])
             b == Abs(t[3]) IN Lcm(a, b) % a = 0 /\ Lcm(a, b) % b = 0 /\ \A k \in 1..(Lcm(a, b) - 1) : ~(k % a = 0 /\ k % b = 0)
=============================================================================
