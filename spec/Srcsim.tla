------------------------------- MODULE Srcsim -------------------------------
(* Painting radially symmetric objects on a map, and summing a map in rings  *)
(* around objects.  Distances are integers (1e-5 radians).  A profile is a   *)
(* sequence of <<r, v>>, v in hundredths, linear in between, constant inside *)
(* the first and zero from the last radius on.                               *)
EXTENDS Common, TLC
(* value of the profile at distance d, in units of 1e-4 *)
ProfAt(p, d) ==
  LET n == Len(p) IN
  IF d < p[1][1] THEN 100 * p[1][2]
  ELSE IF d >= p[n][1] THEN 0
  ELSE LET k == CHOOSE k \in 1..(n - 1) : p[k][1] <= d /\ d < p[k + 1][1]
           f == (10000 * (d - p[k][1])) \div (p[k + 1][1] - p[k][1])
       IN  (100 * p[k][2]) + (((p[k + 1][2] - p[k][2]) * f) \div 100)
(* the last sample not below the threshold: inside its radius nothing may be left out.
   amax: largest amplitude of the object; vmin in the units of amplitude times hundredths; rmax: cap, 0 for none *)
Radius(p, amax, vmin, rmax) ==
  LET S == {k \in 1..Len(p) : Abs(p[k][2]) * amax >= vmin}
      \* the profile may still be above the threshold until it falls below it on the way to the next sample
      k == IF S = {} THEN 0 ELSE MaxOf(S)
      r == IF k = 0 THEN 0
           ELSE IF k = Len(p) THEN p[k][1]
           ELSE LET a == Abs(p[k][2]) * amax
                    b == p[k + 1][2] * Sgn(p[k][2]) * amax
                IN  IF a = b THEN p[k][1] ELSE p[k][1] + (((p[k + 1][1] - p[k][1]) \div 100) * ((100 * (a - vmin)) \div (a - b)))
  IN  IF rmax > 0 THEN Min2(r, rmax) ELSE r
(* rings: the distances in [e_k, e_(k+1)) belong to ring k *)
Ring(e, d) == LET S == {k \in 1..(Len(e) - 1) : e[k] <= d /\ d < e[k + 1]} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
(* combining *)
Comb(op, a, b) == IF op = "add" THEN a + b ELSE IF op = "max" THEN Max2(a, b) ELSE Min2(a, b)
=============================================================================
