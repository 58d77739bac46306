------------------------------ MODULE TraceP15 ------------------------------
EXTENDS Interp, TraceBase
NX(a) == a.dims[Len(a.dims)]
NY(a) == IF Len(a.dims) = 1 THEN 1 ELSE a.dims[1]
ND(a) == Len(a.dims)
NPix(a) == NY(a) * NX(a)
NP(a) == Len(a.pts[1])
Field(a, f) == TLCEval([k \in 1..NPix(a) |-> 1000 * a.x[((f - 1) * NPix(a)) + k]])
Tol(order, f4) == (IF order <= 1 THEN 4 ELSE IF order <= 3 THEN 40 ELSE 150) + (IF f4 THEN 6 ELSE 0)
\* positions along the y and x axes (a one-dimensional array has a single row)
PY(a, p) == IF ND(a) = 1 THEN 0 ELSE a.pts[1][p]
PX(a, p) == a.pts[ND(a)][p]
F4(a) == a.dt \in {"f4", "c8"}
\* --- map_coordinates: taps on both axes, coefficients for splines
Map(r) ==
  LET a == r.a
      b == a.border
      spl == a.mode = "spline" /\ a.order >= 2
      ndv == IF a.deriv THEN ND(a) ELSE 1
      want(c, d, p) == LET ty == TLCEval(IF ND(a) = 1 THEN <<<<0, WU>>>> ELSE Taps(a.mode, a.order, b, NY(a), PY(a, p), a.deriv /\ d = 1))
                           tx == TLCEval(Taps(a.mode, a.order, b, NX(a), PX(a, p), a.deriv /\ d = ND(a)))
                       IN  Eval2(c, NX(a), ty, tx)
  IN  Bad("shape", Len(r.o.v) # ndv * a.npre * NP(a)) \cup
      (IF Len(r.o.v) # ndv * a.npre * NP(a) THEN {} ELSE
       Bad("values", \E f \in 1..a.npre : LET c == TLCEval(IF spl THEN Coefs2(Field(a, f), NY(a), NX(a), a.order, b) ELSE Field(a, f)) IN
          \E d \in 1..ndv : \E p \in 1..NP(a) : ~Near(r.o.v[((((d - 1) * a.npre) + (f - 1)) * NP(a)) + p], want(c, d, p), (IF a.deriv THEN 2 ELSE 1) * (Tol(a.order, F4(a)) + (IF a.mode = "lanczos" THEN 16 ELSE 0)))))
      \cup Bad("inputs", ~r.o.same) \cup Bad("out", ~r.o.isout)
\* the transpose: A[p, j] = B[j, p]
Trans(r) == Bad("transpose", ~NearSeq(r.o.fwd, r.o.bwd, 2 + (IF F4(r.a) THEN 4 ELSE 0))) \cup Bad("inputs", ~r.o.same)
\* --- interpolation of arrays: edges as documented
Clip8(p, n) == Clip(p, 0, 8 * (n - 1))
InnerBorder(b) == IF b = "wrap" THEN "cyclic" ELSE IF b = "nearest" THEN "reflect" ELSE "mirror"
Outside(a, p) == PX(a, p) < 0 \/ PX(a, p) > 8 * (NX(a) - 1) \/ (ND(a) > 1 /\ (PY(a, p) < 0 \/ PY(a, p) > 8 * (NY(a) - 1)))
SpVal(a, c, p) ==
  LET q(v, n) == IF a.border = "nearest" THEN Clip8(v, n) ELSE v
      b == InnerBorder(a.border)
  IN  IF a.border = "constant" /\ Outside(a, p) THEN 1000 * a.cval
      ELSE Eval2(c, NX(a), IF ND(a) = 1 THEN <<<<0, WU>>>> ELSE TLCEval(Taps("spline", a.order, b, NY(a), q(PY(a, p), NY(a)), FALSE)),
                 TLCEval(Taps("spline", a.order, b, NX(a), q(PX(a, p), NX(a)), FALSE)))
Spline(r) ==
  LET a == r.a
  IN  Bad("shape", Len(r.o.v) # a.npre * NP(a)) \cup
      (IF Len(r.o.v) # a.npre * NP(a) THEN {} ELSE
       Bad("values", \E f \in 1..a.npre : LET c == TLCEval(Coefs2(Field(a, f), NY(a), NX(a), a.order, InnerBorder(a.border))) IN
          \E p \in 1..NP(a) : ~Near(r.o.v[((f - 1) * NP(a)) + p], SpVal(a, c, p), Tol(a.order, F4(a)))))
      \cup Bad("inputs", ~r.o.same) \cup Bad("out", ~r.o.isout)
\* --- Fourier interpolation: K(u) = 1/n sum_k exp(2 pi i k u/n) over the frequencies of n samples, u in eighths (scale 10000)
Frq(k, n) == IF 2 * k < n THEN k ELSE k - n
KRe(u, n) == RDiv(SumSeq([k \in 1..n |-> Cos(Frq(k - 1, n) * u, 8 * n)]), 10 * n)
KIm(u, n) == RDiv(SumSeq([k \in 1..n |-> Sin(Frq(k - 1, n) * u, 8 * n)]), 10 * n)
FVal(a, x, p) ==
  LET ny == NY(a)
      nx == NX(a)
      kx == TLCEval([j \in 1..nx |-> <<KRe(PX(a, p) - (8 * (j - 1)), nx), KIm(PX(a, p) - (8 * (j - 1)), nx)>>])
      ky == TLCEval([j \in 1..ny |-> IF ND(a) = 1 THEN <<WU, 0>> ELSE <<KRe(PY(a, p) - (8 * (j - 1)), ny), KIm(PY(a, p) - (8 * (j - 1)), ny)>>])
  IN  SumSeq([k \in 1..(ny * nx) |-> LET y == ((k - 1) \div nx) + 1
                                         w == ((k - 1) % nx) + 1
                                     IN  RDiv((ky[y][1] * kx[w][1]) - (ky[y][2] * kx[w][2]), WU) * (x[k] \div 1000)]) \div 10
Four(r) ==
  LET a == r.a
  IN  Bad("shape", Len(r.o.v) # a.npre * NP(a)) \cup
      (IF Len(r.o.v) # a.npre * NP(a) THEN {} ELSE
       Bad("values", \E f \in 1..a.npre : LET x == Field(a, f) IN \E p \in 1..NP(a) : ~Near(r.o.v[((f - 1) * NP(a)) + p], FVal(a, x, p), 20)))
      \cup Bad("inputs", ~r.o.same)
\* --- projection: output pixel (j, k) lies at position off + step * (j, k) of the input
ProjPts(a) == [a EXCEPT !.pts = << [k \in 1..(a.osh[1] * a.osh[2]) |-> a.off[1] + (a.step[1] * ((k - 1) \div a.osh[2]))],
                                  [k \in 1..(a.osh[1] * a.osh[2]) |-> a.off[2] + (a.step[2] * ((k - 1) % a.osh[2]))] >>]
Proj(r) ==
  LET a == TLCEval(ProjPts(r.a))
      n == a.osh[1] * a.osh[2]
      \* rows just beyond the map may be the fill value or blended with it
      margin(p) == a.border = "constant" /\ PX(a, p) >= 0 /\ PX(a, p) <= 8 * (NX(a) - 1)
                   /\ ((PY(a, p) < 0 /\ PY(a, p) > -8) \/ (PY(a, p) > 8 * (NY(a) - 1) /\ PY(a, p) < 8 * NY(a)))
  IN  Bad("shape", r.o.shape # a.osh) \cup Bad("wcs", ~r.o.wcs) \cup Bad("inputs", ~r.o.same) \cup
      (IF Len(r.o.v) # a.npre * n THEN {"shape"} ELSE
       Bad("values", \E f \in 1..a.npre : LET c == TLCEval(Coefs2(Field(a, f), NY(a), NX(a), a.order, InnerBorder(a.border))) IN
          \E p \in 1..n : /\ ~(a.order > 1 /\ a.border = "constant" /\ (PY(a, p) % 8 # 0 \/ PX(a, p) % 8 # 0))
                          /\ LET e == SpVal(a, c, p)
                                 g == r.o.v[((f - 1) * n) + p]
                             IN  IF margin(p)
                                 THEN LET s == SpVal([a EXCEPT !.border = "nearest"], Field(a, f), p) IN ~(Min2(e, s) - 5 <= g /\ g <= Max2(e, s) + 5)
                                 ELSE ~Near(g, e, Tol(a.order, F4(a)))))
\* --- one-dimensional piecewise linear interpolation between samples at 0..n-1
Lin1(r) ==
  LET a == r.a
      e(f, p) == LET v == a.pts[1][p]
                     n == NX(a)
                     x == Field(a, f)
                 IN  IF a.period THEN TapSum(Taps("spline", 1, "cyclic", n, v, FALSE), LAMBDA k : x[k + 1])
                     ELSE IF v < 0 /\ a.sides THEN 7000 ELSE IF v > 8 * (n - 1) /\ a.sides THEN -7000
                     ELSE TapSum(Taps("spline", 1, "nearest", n, Clip8(v, n), FALSE), LAMBDA k : x[k + 1])
  IN  Bad("values", ~NearSeq(r.o.v, [k \in 1..(a.npre * NP(a)) |-> e(((k - 1) \div NP(a)) + 1, ((k - 1) % NP(a)) + 1)], 3))
\* --- multilinear and gradient interpolators inside their box
Cell(p, n) == Clip(p \div 8, 0, n - 2)
Multi(r) ==
  LET a == r.a
      e(f, p) == LET x == Field(a, f)
                     nx == NX(a)
                     cy == IF ND(a) = 1 THEN 0 ELSE Cell(PY(a, p), NY(a))
                     cx == Cell(PX(a, p), nx)
                     fy == PY(a, p) - (8 * cy)
                     fx == PX(a, p) - (8 * cx)
                     v(j, k) == x[((cy + j) * nx) + cx + k + 1]
                     dy == IF ND(a) = 1 THEN 0 ELSE v(1, 0) - v(0, 0)
                     dx == v(0, 1) - v(0, 0)
                     dxy == IF ND(a) = 1 THEN 0 ELSE (v(1, 1) + v(0, 0)) - (v(1, 0) + v(0, 1))
                 IN  v(0, 0) + RDiv((fy * dy) + (fx * dx), 8) + (IF a.cls = "grad" THEN 0 ELSE RDiv(fx * fy * dxy, 64))
  IN  Bad("values", ~NearSeq(r.o.v, [k \in 1..(a.npre * NP(a)) |-> e(((k - 1) \div NP(a)) + 1, ((k - 1) % NP(a)) + 1)], 3))
Build(r) == Bad("accuracy", \E k \in 1..Len(r.o.err) : r.o.err[k] > 2 * r.a.lim + 2) \cup Bad("nodes", r.o.kind # r.a.kind)
            \cup Bad("box", r.a.kind = "both" /\ r.a.q # 0 /\ ~r.o.box)
Same(r) == Bad("values", ~NearSeq(r.o.v, [k \in 1..Len(r.a.x) |-> 1000 * r.a.x[k]], 20))
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x} ELSE
  CASE r.k = "mc" -> Map(r) [] r.k = "mct" -> Trans(r) [] r.k = "ip" -> Spline(r) [] r.k = "four" -> Four(r) [] r.k = "at" -> Spline(r) [] r.k = "proj" -> Proj(r)
    [] r.k = "lin1" -> Lin1(r) [] r.k = "multi" -> Multi(r) [] r.k = "build" -> Build(r) [] r.k = "same" -> Same(r)
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
