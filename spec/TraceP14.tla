------------------------------ MODULE TraceP14 ------------------------------
(* Records. Fields are times U, deviations that should vanish in units of     *)
(* 1e-9 relative to the largest value:                                        *)
(*  syn: synthesis on a map whose pixel (y,x) is at declination a.dec0+y*a.ddec *)
(*       and right ascension a.ra0+x*a.dra degrees; pos: at positions a.pts.  *)
(*       a.alm[pre][component][l][m] = <<re,im>>, o.m[pre][component][pixel]. *)
(*  dev: the largest deviations of several ways of computing the same thing,  *)
(*       o.exact (same arithmetic), o.approx (the approximate methods).       *)
(*  prof: one-dimensional profiles.                                           *)
EXTENDS Harmonics, TraceBase
Tol(r) == IF r.a.deriv THEN 500 ELSE 150
LMAX(r) == r.a.lmax
RECURSIVE Starts(_, _, _)
\* first component (one-based) of each entry of the list of spins
Starts(sp, k, c) == IF k > Len(sp) THEN <<>> ELSE <<c>> \o Starts(sp, k + 1, c + (IF sp[k] = 0 THEN 1 ELSE 2))
Values(r, A, ring, p) == \* all components of the field at one position
  IF r.a.deriv THEN LET f == Field(ring[1], A[1], Zeros(A[1]), Grad, p) IN <<f[1], -f[2]>>
  ELSE LET st == Starts(r.a.spin, 1, 1) IN
       Cat([k \in 1..Len(r.a.spin) |-> IF r.a.spin[k] = 0 THEN <<Field(ring[k], A[st[k]], Zeros(A[st[k]]), Ones, p)[1]>>
            ELSE LET f == Field(ring[k], A[st[k]], A[st[k] + 1], Ones, p) IN <<-f[1], -f[2]>>])
Rings(r, t) == IF r.a.deriv THEN <<Ring(1, LMAX(r), r.a.mmax, t)>>
               ELSE [k \in 1..Len(r.a.spin) |-> Ring(r.a.spin[k], LMAX(r), r.a.mmax, t)]
Syn(r) == Bad("shape", r.o.sh # r.o.want) \cup Bad("input", ~r.o.same) \cup Bad("identity", ~r.o.ident) \cup
   Bad("field", r.o.sh = r.o.want /\ \E y \in 1..r.a.ny :
        LET ring == TLCEval(Rings(r, 90 - (r.a.dec0 + ((y - 1) * r.a.ddec)))) IN
        \E x \in 1..r.a.nx : \E q \in 1..Len(r.a.alm) :
          LET v == Values(r, r.a.alm[q], ring, r.a.ra0 + ((x - 1) * r.a.dra)) IN
          \E c \in 1..Len(v) : ~Near(r.o.m[q][c][((y - 1) * r.a.nx) + x], v[c], Tol(r)))
Pos(r) == Bad("shape", r.o.sh # r.o.want) \cup Bad("input", ~r.o.same) \cup
   Bad("field", r.o.sh = r.o.want /\ \E y \in 1..Len(r.a.pts) :
        LET ring == TLCEval(Rings(r, 90 - r.a.pts[y][1])) IN
        \E q \in 1..Len(r.a.alm) : LET v == Values(r, r.a.alm[q], ring, r.a.pts[y][2]) IN
          \E c \in 1..Len(v) : ~Near(r.o.m[q][c][y], v[c], Tol(r)))
Dev(r) == Bad("exact", r.o.exact > r.o.etol) \cup Bad("approx", r.o.approx > r.o.atol) \cup Bad("input", ~r.o.same) \cup Bad("identity", ~r.o.ident)
\* profile with coefficients b: sum of b_l (2l+1)/(4 pi) P_l = sum of b_l Y_l0 sqrt((2l+1)/(4 pi))
Prof(r) == LET Val(b, t) == SumSeq([l \in 1..Len(b) |-> RDiv(b[l] * Lam(0, l - 1, 0, t) * ISqrt(7957747 * ((2 * l) - 1)), U)]) IN
   Bad("profile", \E q \in 1..Len(r.a.bl) : \E k \in 1..Len(r.a.r) : ~Near(r.o.p[q][k], Val(r.a.bl[q], r.a.r[k]), 150))
   \cup Bad("inverse", r.o.inv > r.o.itol)
Failing(r) == IF r.x # "" THEN {"exception"} ELSE
   CASE r.k = "syn" -> Syn(r) [] r.k = "pos" -> Pos(r) [] r.k = "prof" -> Prof(r) [] OTHER -> Dev(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
