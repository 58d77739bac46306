------------------------------ MODULE TraceP18 ------------------------------
(* hist: saving and resuming. o.ref[q][k+1]: fingerprint of the state after k *)
(*   steps of an uninterrupted run from starting point q; o.steps[j]: that of *)
(*   the solver concerned after operation j.                                  *)
(* solve: a whole run on an integer system. o.xs: iterates (scale a.sx),      *)
(*   o.errs (scale 1000)                                                     *)
EXTENDS Solver, TraceBase
RECURSIVE Run(_, _, _)
Run(s, r, j) ==
  IF j > Len(r.a.hist) THEN {} ELSE
  LET o == r.a.hist[j]
      t == Apply(s, o)
      u == t.sol[o.s]
  IN  Bad("resume_" \o o.op, r.o.steps[j].fp # r.o.ref[u.q][u.k + 1]) \cup Bad("count", r.o.steps[j].i # u.k) \cup Run(t, r, j + 1)
\* fixed point: x has scale a.sx; residual b - A x has the same
Res(r, x) == [j \in 1..Len(x) |-> (r.a.b[j] * r.a.sx) - SumSeq([l \in 1..Len(x) |-> r.a.A[j][l] * x[l]])]
\* quadratic form used for the error, on residuals reduced to scale 10, and how far rounding can move it
U(r, v) == [j \in 1..Len(v) |-> RDiv(v[j] * 10, r.a.sx)]
Sq(r, v) == LET u == U(r, v) IN SumSeq([j \in 1..Len(v) |-> r.a.w[j] * u[j] * (SumSeq([l \in 1..Len(v) |-> r.a.Q[j][l] * u[l]]))])
Slack(r, v) == LET u == U(r, v) IN 2 * SumSeq([j \in 1..Len(v) |-> r.a.w[j] * SumSeq([l \in 1..Len(v) |-> Abs(r.a.Q[j][l]) * (Abs(u[l]) + 1)])])
Solve(r) ==
  LET n == Len(r.a.b)
      K == Len(r.o.xs)
      last == Res(r, r.o.xs[K])
      e0 == Sq(r, Res(r, r.o.x0))
  IN  Bad("solved", \E j \in 1..n : Abs(last[j]) > r.a.tol)
      \cup Bad("inputs", ~r.o.same)
      \cup Bad("error", \E k \in 1..K : LET v == Res(r, r.o.xs[k])
                                            got == (r.o.errs[k] * (e0 \div 1000)) + ((r.o.errs[k] * (e0 % 1000)) \div 1000)
                                        IN  r.o.errs[k] < 5000 /\ Abs(got - Sq(r, v)) > (e0 \div 300) + 2 + Slack(r, v) + ((Slack(r, Res(r, r.o.x0)) \div 100) * (r.o.errs[k] \div 10)))
      \cup Bad("count", r.o.i # K)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x}
              ELSE IF r.k = "hist" THEN Run(Fresh(2, 2), r, 1) ELSE Solve(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
