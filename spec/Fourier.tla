------------------------------- MODULE Fourier ------------------------------
(* Discrete Fourier transforms of small integer arrays from their definition. *)
(* Arrays are given by their dimensions and their elements in row-major order *)
(* (separately for the real and imaginary parts). Results have scale Unit.    *)
EXTENDS Common, Trig, TLC
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmTo(_, _)
LcmTo(s, k) == IF k = 0 THEN 1 ELSE Lcm(LcmTo(s, k - 1), s[k])
LcmAll(s) == LcmTo(s, Len(s))
\* frequency that belongs to element k of n: the upper half (and the middle one) is negative
Freq(k, n) == IF 2 * k < n THEN k ELSE k - n

(* Sums over the elements that differ from element f only along the axes      *)
(* (a sequence of 1-based dimensions)                                         *)
Sub(dims, axes) == [j \in 1..Len(axes) |-> dims[axes[j]]]
InAxes(axes, d) == \E j \in 1..Len(axes) : axes[j] = d
PosOf(axes, d) == CHOOSE j \in 1..Len(axes) : axes[j] = d
\* the element with coordinates c along the axes, and otherwise those of ix
Place(ix, c, axes) == [d \in 1..Len(ix) |-> IF InAxes(axes, d) THEN c[PosOf(axes, d)] ELSE ix[d]]
\* sum of (re + i im)(cos + i sin) over a sequence of <<re, im, cos, sin>>
CSum(zz) == LET z == TLCEval(zz) IN <<SumSeq([t \in 1..Len(z) |-> (z[t][1] * z[t][3]) - (z[t][2] * z[t][4])]), SumSeq([t \in 1..Len(z) |-> (z[t][1] * z[t][4]) + (z[t][2] * z[t][3])])>>
RECURSIVE Dot(_, _, _, _, _)
\* sum over the axes of k*n*D/N: the phase in units of 1/D turn
Dot(k, n, sub, D, j) == IF j = 0 THEN 0 ELSE (Dot(k, n, sub, D, j - 1) + (((k[j] * n[j]) % sub[j]) * (D \div sub[j]))) % D
\* element at coordinates ix (in the output) of the transform with the given sign
DftAt(re, im, dims, axes, sign, ix) ==
  LET sub == TLCEval(Sub(dims, axes))
      D == LcmAll(sub)
      k == TLCEval([j \in 1..Len(axes) |-> ix[axes[j]]])
      v(t) == LET n == TLCEval(Unflat(t, sub))
                  g == Flat(Place(ix, n, axes), dims) + 1
                  ph == Dot(k, n, sub, D, Len(axes))
              IN  <<re[g], im[g], Cos(ph, D), sign * Sin(ph, D)>>
  IN  CSum([t \in 1..Prod(sub) |-> v(t - 1)])

(* One axis at a time: phase of the real even and odd transforms. Kernel =    *)
(* <<weight, numerator, denominator>>: weight * cos or sin(2 pi num/den)       *)
R2R(type, k, n, N) ==
  CASE type = "DCT-I"   -> <<IF n = 0 \/ n = N - 1 THEN 1 ELSE 2, k * n, 2 * (N - 1)>>
    [] type = "DCT-II"  -> <<2, ((2 * n) + 1) * k, 4 * N>>
    [] type = "DCT-III" -> <<IF n = 0 THEN 1 ELSE 2, n * ((2 * k) + 1), 4 * N>>
    [] type = "DCT-IV"  -> <<2, ((2 * n) + 1) * ((2 * k) + 1), 8 * N>>
    [] type = "DST-I"   -> <<2, (n + 1) * (k + 1), 2 * (N + 1)>>
    [] type = "DST-II"  -> <<2, ((2 * n) + 1) * (k + 1), 4 * N>>
    [] type = "DST-III" -> <<IF n = N - 1 THEN 1 ELSE 2, (n + 1) * ((2 * k) + 1), 4 * N>>
    [] type = "DST-IV"  -> <<2, ((2 * n) + 1) * ((2 * k) + 1), 8 * N>>
Odd(type) == type \in {"DST-I", "DST-II", "DST-III", "DST-IV"}
Inverse(type) == CASE type = "DCT-II" -> "DCT-III" [] type = "DCT-III" -> "DCT-II" [] type = "DST-II" -> "DST-III" [] type = "DST-III" -> "DST-II" [] OTHER -> type
Period(type, N) == 2 * (CASE type = "DCT-I" -> N - 1 [] type = "DST-I" -> N + 1 [] OTHER -> N)
R2RAt(x, dims, axes, type, ix) ==
  LET sub == TLCEval(Sub(dims, axes))
      odd == Odd(type)
      term(t) ==
        LET n == TLCEval(Unflat(t, sub))
            g == Flat(Place(ix, n, axes), dims) + 1
            K(j) == R2R(type, ix[axes[j]], n[j], sub[j])
            A == K(1)
        IN  IF Len(axes) = 1 THEN x[g] * A[1] * (IF odd THEN Sin(A[2], A[3]) ELSE Cos(A[2], A[3]))
            ELSE LET B == K(2)                          \* product of two (co)sines = half a sum of cosines
                     D == Lcm(A[3], B[3])
                     a == (A[2] % A[3]) * (D \div A[3])
                     b == (B[2] % B[3]) * (D \div B[3])
                     c == IF odd THEN Cos(a - b, D) - Cos(a + b, D) ELSE Cos(a - b, D) + Cos(a + b, D)
                 IN  (x[g] * A[1] * B[1] * c) \div 2
  IN  SumSeq([t \in 1..Prod(sub) |-> term(t - 1)])

(* Band-limited interpolation of one periodic row x of length N: the value at *)
(* p/den samples of the sum of those modes that n samples can hold            *)
\* sum over the modes of exp(2 pi i k u / (N den)), u in units of 1/den sample
Kernel(n, N, den, u) == <<SumSeq([k \in 1..n |-> Cos(Freq(k - 1, n) * u, N * den)]), SumSeq([k \in 1..n |-> Sin(Freq(k - 1, n) * u, N * den)])>>
InterpAt(re, im, N, n, p, den) ==
  LET v(m) == LET K == Kernel(n, N, den, p - (m * den)) IN <<re[m + 1], im[m + 1], K[1], K[2]>>
  IN  CSum([m \in 1..N |-> v(m - 1)])                \* times N
=============================================================================
