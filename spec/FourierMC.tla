------------------------------ MODULE FourierMC -----------------------------
(* The identities of the transforms, for all rows with elements in Vals and   *)
(* length up to NMax (up to rounding of the tables)                           *)
EXTENDS Fourier
CONSTANTS NMax, Vals
VARIABLE x
Init == \E n \in 1..NMax : x \in [1..n -> Vals]
Next == UNCHANGED x
N == Len(x)
Zero == [k \in 1..N |-> 0]
R(v) == RDiv(v, 1000)                      \* scale 100
Tol == 2000 * N * N
\* inverse of forward is N times the identity
Inverts(F, Fr, Fi) == \A n \in 1..N : LET b == DftAt(Fr, Fi, <<N>>, <<1>>, 1, <<n - 1>>)
                           IN  Abs(RDiv(b[1], 100) - (N * x[n] * 100000)) <= Tol /\ Abs(RDiv(b[2], 100)) <= Tol
\* the transform of a real row is Hermitian
Hermitian(F, Fr, Fi) == \A k \in 1..N : LET c == ((N - (k - 1)) % N) + 1 IN Abs(F[k][1] - F[c][1]) <= 20 * N /\ Abs(F[k][2] + F[c][2]) <= 20 * N
\* power
Parseval(F, Fr, Fi) == LET S == SumSeq([k \in 1..N |-> ((RDiv(F[k][1], 1000) * RDiv(F[k][1], 1000)) + (RDiv(F[k][2], 1000) * RDiv(F[k][2], 1000)))])
            IN  Abs(S - (10000 * N * SumSeq([n \in 1..N |-> x[n] * x[n]]))) <= 1000 * N * N
\* shifting by one sample multiplies mode k by exp(-2 pi i k/N)
ShiftThm(F, Fr, Fi) == LET y == [n \in 1..N |-> x[((n - 2) % N) + 1]]
            IN  \A k \in 0..(N - 1) : LET G == DftAt(y, Zero, <<N>>, <<1>>, -1, <<k>>)
                                          e == CSum(<<<<Fr[k + 1], Fi[k + 1], Cos(k, N), -Sin(k, N)>>>>)
                                      IN  Abs(RDiv(e[1], 100) - G[1]) <= Tol /\ Abs(RDiv(e[2], 100) - G[2]) <= Tol
\* interpolation reproduces the samples
Samples == \A p \in 0..(N - 1) : LET v == InterpAt(x, Zero, N, N, 4 * p, 4) IN Abs(v[1] - (N * Unit * x[p + 1])) <= 20 * N * N /\ Abs(v[2]) <= 20 * N * N
\* each real transform is undone by its inverse
Types == {"DCT-I", "DCT-II", "DCT-III", "DCT-IV", "DST-I", "DST-II", "DST-III", "DST-IV"}
Undone == \A t \in Types : (t # "DCT-I" \/ N > 1) =>
  LET y == TLCEval([k \in 1..N |-> RDiv(R2RAt(x, <<N>>, <<1>>, t, <<k - 1>>), 10000)])
  IN  \A n \in 1..N : Abs(RDiv(R2RAt(y, <<N>>, <<1>>, Inverse(t), <<n - 1>>), 10) - (x[n] * Period(t, N) * 100000)) <= 40000 * N
Identities == LET F == TLCEval([k \in 1..N |-> DftAt(x, Zero, <<N>>, <<1>>, -1, <<k - 1>>)])
                  Fr == TLCEval([k \in 1..N |-> R(F[k][1])])
                  Fi == TLCEval([k \in 1..N |-> R(F[k][2])])
              IN  Inverts(F, Fr, Fi) /\ Hermitian(F, Fr, Fi) /\ Parseval(F, Fr, Fi) /\ ShiftThm(F, Fr, Fi)
=============================================================================
