------------------------------- MODULE Ranges -------------------------------
(* Lists of half-open integer ranges <<from, to>>, and strided boxes         *)
(* <<start, end, step>>, as the sets and sequences of integers they denote.  *)
EXTENDS Common
Cells1(r) == {x \in r[1]..(r[2] - 1) : TRUE}
Cells(R) == UNION {Cells1(R[k]) : k \in 1..Len(R)}
Disjoint(R) == \A j, k \in 1..Len(R) : j # k => Cells1(R[j]) \cap Cells1(R[k]) = {}
Ascending(R) == \A k \in 1..(Len(R) - 1) : R[k][1] <= R[k + 1][1]
Proper(R) == \A k \in 1..Len(R) : R[k][1] < R[k][2]
Within(r, s) == s[1] <= r[1] /\ r[2] <= s[2]
(* One pass over sorted ranges, as an algorithm: what remains of range <<p,q>>*)
(* when the ranges of B from the k-th on are taken out                        *)
RECURSIVE CutOne(_, _, _, _)
CutOne(p, q, B, k) ==
  IF p >= q THEN <<>>
  ELSE IF k > Len(B) THEN <<<<p, q>>>>
  ELSE IF B[k][2] <= p THEN CutOne(p, q, B, k + 1)
  ELSE IF B[k][1] >= q THEN <<<<p, q>>>>
  ELSE (IF B[k][1] > p THEN <<<<p, B[k][1]>>>> ELSE <<>>) \o CutOne(Max2(p, B[k][2]), q, B, k + 1)
SubPass(A, B) == Cat([j \in 1..Len(A) |-> CutOne(A[j][1], A[j][2], B, 1)])
RECURSIVE MergePass(_, _)
MergePass(A, acc) ==
  IF A = <<>> THEN acc
  ELSE IF acc # <<>> /\ Head(A)[1] <= acc[Len(acc)][2]
       THEN MergePass(Tail(A), [acc EXCEPT ![Len(acc)] = <<@[1], Max2(@[2], Head(A)[2])>>])
       ELSE MergePass(Tail(A), Append(acc, Head(A)))
(* Strided boxes *)
SLen(s) == IF s[3] > 0 THEN Max2(0, CDiv(s[2] - s[1], s[3])) ELSE Max2(0, CDiv(s[1] - s[2], -s[3]))
SEl(s) == [k \in 1..SLen(s) |-> s[1] + (k - 1) * s[3]]
SSet(s) == {s[1] + (k - 1) * s[3] : k \in 1..SLen(s)}
Fix(s) == <<s[1], s[1] + SLen(s) * s[3], s[3]>>
Flip(s) == LET f == Fix(s) IN <<f[2] - f[3], f[1] - f[3], -f[3]>>
\* s[t]: the elements of s that the box t selects
Compose(s, t) == [k \in 1..SLen(t) |-> SEl(s)[t[1] + (k - 1) * t[3] + 1]]
ComposeBox(s, t) == Fix(<<s[1] + t[1] * s[3], s[1] + t[1] * s[3] + SLen(t) * s[3] * t[3], s[3] * t[3]>>)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
=============================================================================
