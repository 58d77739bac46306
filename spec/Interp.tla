------------------------------- MODULE Interp -------------------------------
(* Interpolation of arrays: which sample an index beyond the edge refers to,   *)
(* the weight of a sample at a given distance for each kernel, spline          *)
(* coefficients (defined by the requirement that the spline passes through     *)
(* the samples) and the interpolated value in any number of dimensions.        *)
(* Positions are counted in eighths of a sample, values have scale 1000 and    *)
(* weights scale 10000.                                                        *)
EXTENDS Common, Trig, TLC
P8 == 8
WU == 10000
\* --- edges: the sample an index refers to, -1 for none
Edge(b, n, i) ==
  IF i >= 0 /\ i < n THEN i ELSE
  CASE b = "zero"    -> -1
    [] b = "nearest" -> IF i < 0 THEN 0 ELSE n - 1
    [] b = "cyclic"  -> i % n
    [] b = "mirror"  -> IF n = 1 THEN 0 ELSE LET v == i % (2 * n - 2) IN IF v < n THEN v ELSE (2 * n - 2) - v
    [] b = "reflect" -> LET v == i % (2 * n) IN IF v < n THEN v ELSE (2 * n - 1) - v
\* --- kernels at distance t/8
Pow(x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x ELSE IF k = 2 THEN x * x ELSE IF k = 3 THEN x * x * x ELSE IF k = 4 THEN (x * x) * (x * x) ELSE (x * x) * (x * x) * x
\* sin(pi t/8)/(pi t/8) 
Sinc(t, per) == IF t = 0 THEN WU ELSE RDiv(Sin(t, 2 * per) * per * 113, 3550 * t)       \* Sin has scale 10^5, pi = 355/113
Kern(mode, order, t) ==
  IF order = 1 /\ mode # "lanczos" THEN (IF t < 8 THEN 1250 * (8 - t) ELSE 0)
  ELSE CASE mode = "conv" ->
         (IF t < 8 THEN RDiv(WU * ((3 * Pow(t, 3)) - (40 * t * t) + 1024), 1024)
          ELSE IF t < 16 THEN RDiv(WU * ((40 * t * t) - Pow(t, 3) - (512 * t) + 2048), 1024) ELSE 0)
    [] mode = "spline" /\ order = 2 -> (IF t < 4 THEN RDiv(WU * (48 - (t * t)), 64) ELSE IF t < 12 THEN RDiv(WU * Pow(12 - t, 2), 128) ELSE 0)
    [] mode = "spline" /\ order = 3 -> (IF t < 8 THEN RDiv(WU * ((3 * Pow(t, 3)) - (48 * t * t) + 2048), 3072) ELSE IF t < 16 THEN RDiv(WU * Pow(16 - t, 3), 3072) ELSE 0)
    [] mode = "spline" /\ order = 4 -> (IF t < 4 THEN RDiv((WU \div 8) * ((3 * Pow(t, 4)) - (480 * t * t) + 29440), 6144)
                                        ELSE IF t < 12 THEN RDiv((WU \div 8) * ((80 * Pow(t, 3)) - (2 * Pow(t, 4)) - (960 * t * t) + (1280 * t) + 28160), 6144)
                                        ELSE IF t < 20 THEN RDiv((WU \div 8) * Pow(20 - t, 4), 12288) ELSE 0)
    [] mode = "spline" /\ order = 5 -> (IF t < 8 THEN RDiv(125 * ((240 * Pow(t, 4)) - (10 * Pow(t, 5)) - (30720 * t * t) + 2162688), 49152)
                                        ELSE IF t < 16 THEN RDiv(125 * ((5 * Pow(t, 5)) - (360 * Pow(t, 4)) + (9600 * Pow(t, 3)) - (107520 * t * t) + (307200 * t) + 1671168), 49152)
                                        ELSE IF t < 24 THEN RDiv(125 * Pow(24 - t, 5), 49152) ELSE 0)
    [] mode = "lanczos" -> (IF t < 8 * order THEN RDiv(Sinc(t, 8) * Sinc(t, 8 * order), WU) ELSE 0)
\* the derivative of the kernel with respect to the distance
DKern(mode, order, t) ==
  IF order = 1 THEN (IF t < 8 THEN -WU ELSE 0)
  ELSE CASE mode = "conv" -> (IF t < 8 THEN RDiv(WU * ((9 * t * t) - (80 * t)), 128) ELSE IF t < 16 THEN RDiv(WU * ((80 * t) - (3 * t * t) - 512), 128) ELSE 0)
    [] mode = "spline" /\ order = 2 -> (IF t < 4 THEN -(2500 * t) ELSE IF t < 12 THEN -(1250 * (12 - t)) ELSE 0)
    [] mode = "spline" /\ order = 3 -> (IF t < 8 THEN RDiv(WU * ((3 * t * t) - (32 * t)), 128) ELSE IF t < 16 THEN -RDiv(WU * Pow(16 - t, 2), 128) ELSE 0)
    [] mode = "spline" /\ order = 4 -> (IF t < 4 THEN RDiv(WU * (Pow(t, 3) - (80 * t)), 512)
                                        ELSE IF t < 12 THEN RDiv((WU \div 10) * ((600 * t * t) - (20 * Pow(t, 3)) - (4800 * t) + 3200), 1536)
                                        ELSE IF t < 20 THEN -RDiv(WU * Pow(20 - t, 3), 3072) ELSE 0)
Width(mode, order) == IF mode = "lanczos" THEN order ELSE IF mode = "conv" THEN (IF order = 3 THEN 2 ELSE 1) ELSE (order \div 2) + 1
FloorDiv(a, b) == a \div b          \* TLC's \div rounds down for a positive divisor
\* --- one axis: the samples used and their weights, as a sequence of <<index, weight>>
Taps(mode, order, b, n, p, d) ==
  IF order = 0 THEN <<<<Edge(b, n, FloorDiv(p + 4, 8)), IF d THEN 0 ELSE WU>>>>
  ELSE LET w == Width(mode, order)
           f == FloorDiv(p, 8)
       IN  TLCEval([j \in 1..(2 * w + 2) |-> LET ind == (f - w) + (j - 1)
                                                 x == p - (8 * ind)
                                             IN  <<Edge(b, n, ind), IF d THEN Sgn(x) * DKern(mode, order, Abs(x)) ELSE Kern(mode, order, Abs(x))>>])
\* --- spline coefficients along a line (scale 1000 as the samples): the solution of  sum_j Kern(j) c[i+j] = a[i],
\* by iteration, which converges because the kernel at 0 exceeds the sum of the others
RECURSIVE CoefIt(_, _, _, _, _, _)
CoefIt(a, c, order, b, n, k) ==
  IF k = 0 THEN c ELSE
  CoefIt(a, TLCEval([j \in 1..n |-> RDiv((a[j] * 1000) - SumTo([m \in 1..(2 * (order \div 2)) |->
           LET h == order \div 2
               o == IF m <= h THEN -m ELSE m - h
               e == Edge(b, n, (j - 1) + o)
           IN  IF e < 0 THEN 0 ELSE RDiv(Kern("spline", order, 8 * Abs(o)) * c[e + 1], 10)], 2 * (order \div 2)), Kern("spline", order, 0) \div 10)]), order, b, n, k - 1)
Iters(order) == IF order = 2 THEN 10 ELSE IF order = 3 THEN 16 ELSE IF order = 4 THEN 26 ELSE 48
Coefs(a, order, b) == IF order < 2 \/ Len(a) = 1 THEN a ELSE TLCEval(CoefIt(a, a, order, b, Len(a), Iters(order)))
\* two-dimensional arrays, flat in row-major order
Coefs2(a, ny, nx, order, b) ==
  IF order < 2 THEN a ELSE
  LET rows == TLCEval([y \in 1..ny |-> Coefs([x \in 1..nx |-> a[((y - 1) * nx) + x]], order, b)])
      cols == TLCEval([x \in 1..nx |-> Coefs([y \in 1..ny |-> rows[y][x]], order, b)])
  IN  TLCEval([k \in 1..(ny * nx) |-> cols[((k - 1) % nx) + 1][((k - 1) \div nx) + 1]])
TapSum(t, v(_)) == LET s == TLCEval([j \in 1..Len(t) |-> IF t[j][1] < 0 \/ t[j][2] = 0 THEN 0 ELSE t[j][2] * v(t[j][1])]) IN RDiv(SumTo(s, Len(s)), WU)
Eval2(c, nx, ty, tx) == TapSum(ty, LAMBDA y : TapSum(tx, LAMBDA x : c[(y * nx) + x + 1]))
=============================================================================
