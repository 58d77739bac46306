----------------------------- MODULE Harmonics ------------------------------
(* Spin-weighted spherical harmonics up to l = 3 in fixed point (times U),    *)
(* from the closed sum over powers of the sine and cosine of half the polar   *)
(* angle, and the fields they synthesise. Angles are whole degrees.           *)
(* A scalar field is sum a_lm Y_lm over all m with a_(l,-m) = (-1)^m a*_lm;   *)
(* a spin-s field is -sum (E+iB)_lm sY_lm. The gradient of a scalar field is  *)
(* the spin-1 field with E_lm = sqrt(l(l+1)) a_lm.                            *)
EXTENDS Common, Trig, TLC
U == 10000
HC(t) == RDiv(Cos(t % 720, 720), 10)
HS(t) == RDiv(Sin(t % 720, 720), 10)
CD(a) == RDiv(Cos(a % 360, 360), 10)
SD(a) == RDiv(Sin(a % 360, 360), 10)
RECURSIVE PowF(_, _)
PowF(x, n) == IF n = 0 THEN U ELSE RDiv(PowF(x, n - 1) * x, U)
Fact == <<1, 1, 2, 6, 24, 120, 720>>
F(n) == Fact[n + 1]
Binom(n, k) == F(n) \div (F(k) * F(n - k))
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
ISqrt(n) == IF n = 0 THEN 0 ELSE Bisect(n, 1, 46341)
Norm(s, l, m) == LET num == F(l + m) * F(l - m) * ((2 * l) + 1)
                     den == F(l + s) * F(l - s) IN
                 ISqrt(((7957747 \div den) * num) + (((7957747 % den) * num) \div den))
\* powers of the half-angle functions: P[a][b] would be cos^a sin^b
Lam(s, l, m, t) ==
  LET c == TLCEval([k \in 0..6 |-> PowF(HC(t), k)])
      d == TLCEval([k \in 0..6 |-> PowF(HS(t), k)])
      Term(k) == IF k + s - m < 0 \/ k + s - m > l + s THEN 0
                 ELSE Sign(l - k - s) * Binom(l - s, k) * Binom(l + s, k + s - m) * RDiv(c[(2 * k) + s - m] * d[(2 * l) - (2 * k) - s + m], U)
  IN Sign(m) * RDiv(Norm(s, l, m) * SumSeq([k \in 1..(l - s + 1) |-> Term(k - 1)]), U)
\* the (l,m) pairs of a triangular layout in some order
LMs(lmax, mmax) == {<<l, m>> \in (0..lmax) \X (0..mmax) : m <= l}
\* coefficient <<re,im>> of any m, from those with m >= 0: A[l+1][m+1]
Coef(A, l, m) == IF m > 0 THEN A[l + 1][m + 1] ELSE IF m = 0 THEN <<A[l + 1][1][1], 0>>
                 ELSE LET c == A[l + 1][1 - m] IN <<Sign(m) * c[1], -(Sign(m) * c[2])>>
\* table of Lam for one ring: [<<l,m>>]
Ring(s, lmax, mmax, t) == TLCEval([lm \in {<<l, m>> \in (s..lmax) \X ((-mmax)..mmax) : Abs(m) <= l} |-> Lam(s, lm[1], lm[2], t)])
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
\* value of the field at longitude p of a ring whose table is R: <<real, imaginary>>
\* E and B are sequences of rows of coefficients scaled by w[l+1]/U
Field(R, E, B, w, p) ==
  LET D == DOMAIN R
      re == [lm \in D |-> LET e == Coef(E, lm[1], lm[2])
                              b == Coef(B, lm[1], lm[2])
                              x == RDiv(R[lm] * w[lm[1] + 1], U)
                          IN RDiv(x * (((e[1] - b[2]) * CD(lm[2] * p)) - ((e[2] + b[1]) * SD(lm[2] * p))), U)]
      im == [lm \in D |-> LET e == Coef(E, lm[1], lm[2])
                              b == Coef(B, lm[1], lm[2])
                              x == RDiv(R[lm] * w[lm[1] + 1], U)
                          IN RDiv(x * (((e[1] - b[2]) * SD(lm[2] * p)) + ((e[2] + b[1]) * CD(lm[2] * p))), U)]
  IN <<SumSet(re, D), SumSet(im, D)>>
Ones == <<U, U, U, U>>
Grad == <<0, 14142, 24495, 34641>>
Zeros(A) == [l \in DOMAIN A |-> [m \in DOMAIN A[l] |-> <<0, 0>>]]

(* Ring grids. Positions are measured in half pixels from the north pole, H    *)
(* half pixels being half a turn. A map's first ring is at half pixel a, and   *)
(* it has ny rings.                                                            *)
Kind(H, a, ny) == LET last == a + (2 * (ny - 1)) IN
  IF a % 2 = 0 /\ H % 2 = 0 THEN IF a = 2 /\ last = H - 2 THEN "F2" ELSE IF a = 0 /\ last = H - 2 THEN "DH" ELSE "CC"
  ELSE IF a % 2 = 1 /\ H % 2 = 0 THEN "F1"
  ELSE IF a % 2 = 1 THEN "MW" ELSE "MWflip"
\* rings of the complete grid of this kind: first half pixel and number
GridFirst(kind) == CASE kind = "CC" -> 0 [] kind = "DH" -> 0 [] kind = "MWflip" -> 0 [] kind = "F2" -> 2 [] kind = "F1" -> 1 [] kind = "MW" -> 1
GridNum(kind, H) == CASE kind = "CC" -> (H \div 2) + 1 [] kind = "DH" -> H \div 2 [] kind = "F2" -> (H \div 2) - 1 [] kind = "F1" -> H \div 2
                      [] kind = "MW" -> (H + 1) \div 2 [] kind = "MWflip" -> (H + 1) \div 2
PadBefore(H, a, ny) == (a - GridFirst(Kind(H, a, ny))) \div 2
PadAfter(H, a, ny) == GridNum(Kind(H, a, ny), H) - PadBefore(H, a, ny) - ny
\* highest l for which the complete grid determines the coefficients
MaxL(kind, n) == CASE kind = "CC" -> n - 2 [] kind = "DH" -> (n - 2) \div 2 [] kind = "F2" -> (n - 1) \div 2 [] OTHER -> n - 1
=============================================================================
