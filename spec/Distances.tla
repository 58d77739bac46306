----------------------------- MODULE Distances ------------------------------
(* Distances from pixels to the nearest of a set of points, and the label of *)
(* the point that attains them. D[p][j] is the distance from pixel p to      *)
(* point j in fixed point, known to within Eps. The exact method finds the   *)
(* minimum; the methods that propagate fronts may lose domains narrower than *)
(* a pixel, so they may exceed it by tol but never undercut it, and the      *)
(* label they give always is the point whose distance they report.           *)
EXTENDS Common
Eps == 4
MinD(row) == MinOf({row[j] : j \in 1..Len(row)})
(* Distance v reported for a pixel with true minimum m; rmax = -1 if there is none *)
DistOk(v, m, rmax, tol) == IF rmax < 0 \/ m + tol + Eps < rmax THEN v >= m - Eps /\ v <= m + tol + Eps
                           ELSE IF m > rmax + Eps THEN Near(v, rmax, Eps)
                           ELSE (v >= m - Eps \/ v >= rmax - Eps) /\ v <= rmax + Eps
(* Label l of a pixel with distance v: -1 where nothing is within rmax *)
LabelOk(l, v, row, rmax, tol) ==
  IF l = -1 THEN rmax >= 0 /\ MinD(row) + tol + Eps >= rmax /\ Near(v, rmax, Eps)
  ELSE l >= 0 /\ l < Len(row) /\ Near(row[l + 1], v, Eps)
---------------------------------------------------------------------------
(* Matching two catalogues: pairs within r. Pairs whose distance is within   *)
(* Eps of r may be in or out.                                                *)
Pairs(D, r) == {<<x, y>> \in (1..Len(D)) \X (1..Len(D[1])) : D[x][y] <= r}
SeqPairs(s) == {<<s[k][1] + 1, s[k][2] + 1>> : k \in 1..Len(s)}
AllOk(D, r, s) == /\ Pairs(D, r - Eps) \subseteq SeqPairs(s) /\ SeqPairs(s) \subseteq Pairs(D, r + Eps)
                  /\ Cardinality(SeqPairs(s)) = Len(s)
(* Each object at most once, and nothing that could still be matched is left *)
Matching(P) == \A a \in P, b \in P : a # b => a[1] # b[1] /\ a[2] # b[2]
Greedy(D, r, s) ==
  LET P == SeqPairs(s) IN
  /\ Matching(P) /\ Cardinality(P) = Len(s) /\ P \subseteq Pairs(D, r + Eps)
  /\ \A c \in Pairs(D, r - Eps) : \E b \in P : b[1] = c[1] \/ b[2] = c[2]
(* closest: a pair is left out only for the sake of one that is at least as close *)
ClosestOk(D, r, s) == /\ Greedy(D, r, s)
  /\ LET P == SeqPairs(s) IN \A c \in Pairs(D, r - Eps) : \E b \in P : (b[1] = c[1] \/ b[2] = c[2]) /\ D[b[1]][b[2]] <= D[c[1]][c[2]] + Eps
(* first: only for the sake of an earlier one, in lexicographic order *)
Before(b, c) == b[1] < c[1] \/ (b[1] = c[1] /\ b[2] <= c[2])
FirstOk(D, r, s) == /\ Greedy(D, r, s)
  /\ LET P == SeqPairs(s) IN \A c \in Pairs(D, r - Eps) : \E b \in P : (b[1] = c[1] \/ b[2] = c[2]) /\ Before(b, c)
(* nearest: every object of the first catalogue with its nearest neighbour   *)
NearestOk(D, r, s) ==
  LET P == SeqPairs(s) IN
  /\ Cardinality(P) = Len(s) /\ P \subseteq Pairs(D, r + Eps)
  /\ \A a \in P, b \in P : a # b => a[1] # b[1]
  /\ \A x \in 1..Len(D) : MinD(D[x]) <= r - Eps => \E b \in P : b[1] = x
  /\ \A b \in P : D[b[1]][b[2]] <= MinD(D[b[1]]) + Eps
=============================================================================
